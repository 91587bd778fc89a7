// node host.js: loads the shim and runs verif_main of the Rust library $VERIF_LIB.
const os = require('os');
const path = require('path');
const m = { exports: {} };
process.dlopen(m, process.env.VERIF_SHIM || path.join(__dirname, '../build/shim/shim.node'),
  os.constants.dlopen.RTLD_NOW | os.constants.dlopen.RTLD_GLOBAL);
if (require.main === module) m.exports.exit(m.exports.main());
module.exports = m.exports;
