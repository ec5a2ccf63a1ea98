// Prints the syntax tree of a JavaScript module as JSON.
import { createRequire } from 'node:module'
import fs from 'node:fs'
const require = createRequire('/opt/veriftools/node/package.json')
const acorn = require('acorn')
const text = fs.readFileSync(process.argv[2], 'utf8')
process.stdout.write(JSON.stringify(acorn.parse(text, { ecmaVersion: 'latest', sourceType: 'module', locations: true, allowHashBang: true })))
