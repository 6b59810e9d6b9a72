// Anything not modelled: importing works, using it throws.
const mk = (name) =>
  new Proxy(function () {}, {
    get(_t, p) {
      if (p === '__esModule') return false;
      if (p === 'prototype') return {};
      if (p === 'default') return mk(name + '.default');
      if (typeof p === 'symbol') return undefined;
      return mk(name + '.' + p);
    },
    apply() {
      throw new Error('not modelled: ' + name);
    },
    construct() {
      throw new Error('not modelled: ' + name);
    },
  });
module.exports = mk('external');
