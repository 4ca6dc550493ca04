// The lab extension (index.ts, store.ts, ...) of the working tree in a simulated JupyterLab.
// A server on a unix socket: each connection sends a list of events, the answer is
// what the extension did in response to the last of them.  Every request starts from
// scratch, so that the exploring processes can fork freely.
const net = require('net');
const { load } = require('./load.js');
const [repo, sockPath] = process.argv.slice(2);

function anything() {
  const p = new Proxy(function () {}, {
    get: (_, k) => {
      if (k === Symbol.iterator) return function* () {};
      if (k === Symbol.toPrimitive) return () => '';
      if (k === 'forEach') return () => undefined;
      if (k === 'then') return undefined;
      if (k === 'length') return 0;
      return p;
    },
    set: () => true, apply: () => p, construct: () => p,
  });
  return p;
}
function signal() {
  const fs = [];
  return {
    connect: (f) => { if (!fs.includes(f)) fs.push(f); },
    disconnect: (f) => { const i = fs.indexOf(f); if (i >= 0) fs.splice(i, 1); },
    emit: (...a) => [...fs].forEach((f) => f(...a)),
  };
}

class World {
  constructor(init) {
    this.actions = [];
    this.pending = []; // debounced calls that have not happened
    this.timers = [];
    this.running = []; // executions the kernel has not answered
    this.futures = [];
    const w = this;
    const debounce = (f) => {
      const g = (...a) => { w.pending = w.pending.filter((x) => x[0] !== f); w.pending.push([f, a]); };
      return g;
    };
    const stubs = {
      lodash: { debounce, isEqual: (a, b) => JSON.stringify(a) === JSON.stringify(b) },
      '@jupyterlab/cells': {
        CodeCell: {
          execute: (cell, _s) => {
            cell.promptNode.textContent = '[*]:';
            cell.model.isDirty = false;
            w.actions.push(['execute', cell.model.id, cell.model.source]);
            return new Promise((resolve) => w.running.push([cell, resolve]));
          },
        },
      },
    };
    const L = load(repo, stubs, {
      setTimeout: (f) => { w.timers.push(f); return w.timers.length; },
      window: {}, Event: class { constructor(t) { this.type = t; } }, document: anything(),
    });
    this.module = L.module('index.ts');
    this.store = L.module('store.ts');
    this.cells = [];
    this.metadata = init.metadata || {};
    const nb = (this.notebook = {
      widgets: this.cells, activeCell: null, activeCellChanged: signal(), node: anything(), scrollbar: false,
      isSelected: (c) => w.selected.has(c.model.id),
      isSelectedOrActive: (c) => c === nb.activeCell || w.selected.has(c.model.id),
      model: {
        contentChanged: signal(), cells: { changed: signal() },
        getMetadata: (k) => (k in w.metadata ? JSON.parse(JSON.stringify(w.metadata[k])) : undefined),
        setMetadata: (k, v) => { w.metadata[k] = JSON.parse(JSON.stringify(v)); },
      },
    });
    this.selected = new Set();
    init.cells.forEach((c) => this.addCell(c, this.cells.length, true));
    nb.activeCell = this.cells[0];
    const kernel = {
      name: 'ipyflow',
      registerCommTarget: () => undefined,
      createComm: () => (this.comm = {
        isDisposed: false, onMsg: null,
        send: (d) => w.actions.push(['comm', JSON.parse(JSON.stringify(d))]),
        open: (d) => w.actions.push(['open', JSON.parse(JSON.stringify(d))]),
        dispose() { this.isDisposed = true; },
      }),
      requestExecute: (r) => {
        w.actions.push(['request', r.code]);
        return { done: new Promise((resolve) => w.futures.push(resolve)) };
      },
    };
    this.session = { isReady: true, ready: Promise.resolve(), session: { id: 'S', kernel }, kernelChanged: signal() };
    const runSelected = () => {
      const cs = this.cells.filter((c) => nb.isSelectedOrActive(c) && c.model.type === 'code');
      return Promise.all(cs.map((c) => stubs['@jupyterlab/cells'].CodeCell.execute(c, this.session)));
    };
    this.commands = new Map([
      ['notebook:run-cell', { execute: runSelected }],
      ['notebook:run-cell-and-select-next', { execute: () => { const p = runSelected(); w.next(); return p; } }],
      ['runmenu:run', { execute: () => { const p = runSelected(); w.next(); return p; } }],
      ['notebook:enter-command-mode', { execute: () => undefined }],
      ['notebook:move-cursor-down', { execute: () => w.next() }],
      ['notebook:insert-cell-below', { execute: () => undefined }],
    ]);
    const app = { commands: {
      _commands: this.commands, addKeyBinding: () => undefined,
      addCommand: (name, c) => this.commands.set(name, c),
      execute: (name) => this.commands.get(name).execute(),
    } };
    this.panel = { model: nb.model, sessionContext: this.session, content: nb, context: { save: () => undefined } };
    this.tracker = {
      currentWidget: this.panel, get activeCell() { return nb.activeCell; },
      currentChanged: signal(), widgetAdded: signal(), selectionChanged: signal(),
    };
    this.module.default.activate(app, this.tracker, { addItem: () => undefined }, { autosave: false });
    this.tracker.widgetAdded.emit(this.tracker, this.panel);
  }
  addCell(c, at, silent) {
    const model = {
      id: c.id, type: c.type || 'code', source: c.source, sharedModel: { getSource: () => model.source },
      stateChanged: signal(), isDirty: false, executionCount: null, contentChanged: signal(), _setDirty: (x) => { model.isDirty = x; },
    };
    const cell = { model, promptNode: { textContent: '[ ]:' }, setPrompt: (p) => { cell.promptNode.textContent = p === '' ? '[ ]:' : '[' + p + ']:'; }, node: anything() };
    this.cells.splice(at, 0, cell);
    if (!silent) {
      this.notebook.model.cells.changed.emit(this.notebook.model.cells, { type: 'add', newValues: [model], oldValues: [] });
      this.notebook.model.contentChanged.emit();
    }
  }
  cell(id) { return this.cells.find((c) => c.model.id === id); }
  activate(c) {
    if (c === this.notebook.activeCell) return;
    this.notebook.activeCell = c;
    this.notebook.activeCellChanged.emit(this.notebook, c);
  }
  next() {
    const i = this.cells.indexOf(this.notebook.activeCell);
    if (i + 1 < this.cells.length) this.activate(this.cells[i + 1]);
  }
  async settle() {
    for (let i = 0; i < 4; i++) {
      await new Promise((r) => setImmediate(r));
      this.timers.splice(0).forEach((f) => f());
    }
  }
  async event(ev) {
    const [op, ...a] = ev;
    this.actions = [];
    if (op === 'init') { /* done by the constructor */ }
    else if (op === 'msg') this.comm.onMsg({ content: { data: a[0] } });
    else if (op === 'edit') {
      const c = this.cell(a[0]);
      if (c.model.source !== a[1]) {
        c.model.source = a[1];
        c.model.isDirty = true;
        this.notebook.model.contentChanged.emit();
      }
    } else if (op === 'add') this.addCell(a[0], a[1]);
    else if (op === 'delete') {
      const i = this.cells.indexOf(this.cell(a[0])), [c] = this.cells.splice(i, 1);
      if (c === this.notebook.activeCell) this.activate(this.cells[Math.min(i, this.cells.length - 1)]);
      this.notebook.model.cells.changed.emit(this.notebook.model.cells, { type: 'remove', newValues: [], oldValues: [c.model] });
      this.notebook.model.contentChanged.emit();
    } else if (op === 'move') {
      const c = this.cell(a[0]);
      this.cells.splice(this.cells.indexOf(c), 1);
      this.cells.splice(a[1], 0, c);
      this.notebook.model.contentChanged.emit();
    } else if (op === 'debounce') this.pending.splice(0).forEach(([f, x]) => f(...x));
    else if (op === 'activate') this.activate(this.cell(a[0]));
    else if (op === 'command') this.commands.get(a[0]).execute();
    else if (op === 'executed') {
      const [cell, resolve] = this.running.shift();
      if (a[0] !== cell.model.id) throw new Error('out of step');
      if (a[1] !== null) { // otherwise aborted
        cell.promptNode.textContent = '[' + a[1] + ']:';
        cell.model.executionCount = a[1];
        cell.model.stateChanged.emit(cell.model, { name: 'executionCount', newValue: a[1] });
      }
      resolve();
    } else if (op === 'requested') this.futures.shift()();
    else throw new Error('unknown event ' + op);
    await this.settle();
    return this.actions;
  }
  view() {
    const s = this.store.ipyflowState.S;
    const L = (x) => [...(x || [])].sort();
    return s && {
      ready: L(s.readyCells), waiting: L(s.waitingCells), executed: L(s.executedCells), dirty: L(s.dirtyCells),
      parents: s.cellParents, children: s.cellChildren, settings: s.settings, connected: s.isIpyflowCommConnected,
      reacting: s.isReactivelyExecuting, running: this.running.map(([c]) => c.model.id), active: this.notebook.activeCell.model.id,
      pending: this.pending.length, order: this.cells.map((c) => c.model.id), sources: Object.fromEntries(this.cells.map((c) => [c.model.id, c.model.source])),
    };
  }
}

async function answer(log) {
  const w = new World(log[0][1]);
  await w.settle();
  let acts = w.actions.splice(0);
  for (const ev of log.slice(1)) acts = await w.event(ev);
  return { actions: acts, view: w.view() };
}
net.createServer({ allowHalfOpen: true }, (c) => {
  let buf = '';
  c.on('data', (d) => (buf += d));
  c.on('error', () => undefined);
  c.on('end', () => answer(JSON.parse(buf)).then((r) => c.end(JSON.stringify(r)), (e) => c.end(JSON.stringify({ error: String(e && e.stack || e) }))));
}).listen(sockPath, () => console.log('listening'));
