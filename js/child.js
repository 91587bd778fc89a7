// Runs the scenarios that its parent sends.
'use strict';
const host = require('../shim/host.js');
process.on('message', m => process.send(JSON.parse(host.call(JSON.stringify(m)))));
process.on('disconnect', () => host.exit(0));
