// C20 Headers, C21 URLSearchParams, C22 URL, C23 base64, C24 structuredClone, C25 Blob and File,
// C26 FormData, C27 bodies of requests and responses, C28 abort signals.
'use strict';
module.exports = t => {
  const { fc, prop } = t;
  const c = require('./common.js')(fc);
  // Source text is ASCII only, so that nothing depends on how the driver passes it.
  c.A = v => JSON.stringify(v).replace(/[\u007f-\uffff]/g, x => '\\u' + x.charCodeAt(0).toString(16).padStart(4, '0'));
  c.run = expr => {
    const r = t.iso.json(expr);
    if (r.pending) t.fail('pending', `${expr.slice(0, 400)} never settles`);
    return r;
  };
  const file = { C20: 'headers', C21: 'params', C22: 'url', C23: 'base64', C24: 'clone', C25: 'blob', C26: 'form', C27: 'body', C28: 'abort' }[prop];
  require('./web-' + file + '.js')(t, c);
};
