// Loads the lab extension's TypeScript from the working tree (transpiled in memory).
const fs = require('fs'), path = require('path'), vm = require('vm');
const ts = require('/opt/veriftools/node/node_modules/typescript');

const transpiled = {};
function deepEqual(a, b) { return JSON.stringify(a) === JSON.stringify(b); }

exports.load = function (repo, stubs, globals) {
  const src = path.join(repo, 'frontend/labextension/src');
  const cache = {};
  const context = vm.createContext(Object.assign({
    console, setTimeout, setImmediate, Promise, window: {}, document: {},
  }, globals || {}));
  const builtin = Object.assign({
    lodash: { debounce: () => () => undefined, isEqual: deepEqual },
  }, stubs || {});
  function load(file) {
    if (cache[file]) return cache[file].exports;
    if (!transpiled[file]) {
      const js = ts.transpileModule(fs.readFileSync(file, 'utf8'), {
        fileName: file,
        compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true },
      }).outputText;
      transpiled[file] = new vm.Script('(function (exports, require, module) {' + js + '\n})', { filename: file });
    }
    const m = (cache[file] = { exports: {} });
    const req = (name) => {
      if (name.startsWith('.')) {
        for (const ext of ['.ts', '.tsx', '/index.ts', ''])
          if (fs.existsSync(path.join(path.dirname(file), name + ext)) && fs.statSync(path.join(path.dirname(file), name + ext)).isFile())
            return load(path.join(path.dirname(file), name + ext));
      }
      if (builtin[name]) return builtin[name];
      return {};
    };
    transpiled[file].runInContext(context)(m.exports, req, m);
    return m.exports;
  }
  return { context, module: (name) => load(path.join(src, name)) };
};
