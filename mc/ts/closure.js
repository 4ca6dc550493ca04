// Exhaustive exploration of the closure / ordering code of store.ts.
// usage: node closure.js REPO PART N SHARD NSHARDS
const { load } = require('./load.js');
const [repo, part, nArg, shardArg, nshardsArg] = process.argv.slice(2);
const n = +nArg, shard = +shardArg, nshards = +nshardsArg;
const { IpyflowSessionState } = load(repo).module('store.ts');

const ids = ['a', 'b', 'c', 'd', 'e'].slice(0, n);
const out = { states: 0, executions: 0, outcomes: new Set(), violations: [], samples: [] };
function violation(kind, cfg, what) {
  out.nviol = (out.nviol || 0) + 1;
  if (out.violations.length < 10) out.violations.push({ key: kind + ' ' + JSON.stringify(cfg), what, replay: cfg });
}

function* subsets(xs) { for (let m = 0; m < 1 << xs.length; m++) yield xs.filter((_, i) => m & (1 << i)); }
function pairs(cyclic, inorder) {
  const ps = [];
  for (let i = 0; i < n; i++) for (let j = 0; j < n; j++) if (cyclic ? true : inorder ? i < j : i !== j) ps.push([i, j]);
  return ps;
}
function acyclic(edges) {
  const indeg = ids.map(() => 0); edges.forEach(([, j]) => indeg[j]++);
  const q = ids.map((_, i) => i).filter((i) => !indeg[i]); let k = 0;
  while (q.length) { const i = q.pop(); k++; edges.forEach(([a, b]) => { if (a === i && --indeg[b] === 0) q.push(b); }); }
  return k === n;
}
function* graphs(mode) {
  const ps = pairs(mode === 'cyclic', mode === 'inorder');
  let k = 0;
  for (let m = 0; m < 2 ** ps.length; m++) {
    const edges = ps.filter((_, i) => (m >> i) & 1);
    if (mode === 'any' && !acyclic(edges)) continue;
    if (k++ % nshards === shard) yield edges;
  }
}
function rel(edges, from, to) {
  const r = Object.fromEntries(ids.map((id) => [id, []])); // the kernel lists every cell
  edges.forEach((e) => { const a = ids[e[from]], b = ids[e[to]]; (r[a] = r[a] || []).push(b); });
  return r;
}
function make(edges, cfg) {
  const s = new IpyflowSessionState();
  s.cellChildren = rel(edges, 0, 1);
  s.cellParents = rel(edges, 1, 0);
  s.settings = Object.assign({ flow_order: cfg.flow, exec_mode: 'reactive', reactivity_mode: 'batch' }, cfg.settings || {});
  // position order of the notebook: a permutation, possibly without some cells
  (cfg.order || ids).forEach((id, i) => { s.cellsById[id] = { model: { id, type: (cfg.types || {})[id] || 'code' } }; s.orderIdxById[id] = i; });
  s.executedCells = new Set(ids);
  return s;
}
function reach(start, next) {
  const seen = new Set(start), todo = [...start];
  while (todo.length) for (const y of next[todo.pop()] || []) if (!seen.has(y)) { seen.add(y); todo.push(y); }
  return seen;
}
const str = (xs) => [...xs].sort().join('');

// what has to run together with a set of cells
// (least: what is needed for sure; most: what can be justified)
function expected(edges, start, cfg, most) {
  const ch = rel(edges, 0, 1), pa = rel(edges, 1, 0);
  let c = reach(start, ch);
  if (!cfg.pull) return c;
  const stale = new Set(cfg.stale), overwritten = new Set();
  while (true) {
    const before = c.size;
    const up = reach(c, pa);
    let grew = true;
    while (grew) {
      grew = false;
      for (const x of up) if (!c.has(x) && (stale.has(x) || pa[x].some((p) => c.has(p) && (most || !overwritten.has(p))))) { c.add(x); grew = true; }
    }
    for (const [x, ps] of Object.entries(cfg.staleParents || {})) if (c.has(x)) ps.forEach((p) => { if (pa[x].includes(p) && !c.has(p)) { c.add(p); overwritten.add(p); } });
    for (const [x, by] of Object.entries(cfg.staleBy || {})) if (c.has(x))
      for (const [e, ps] of Object.entries(by)) if (c.has(e)) ps.forEach((p) => { if (pa[x].includes(p) && !c.has(p)) { c.add(p); overwritten.add(p); } });
    if (cfg.cousins) c = reach(c, ch);
    if (c.size === before) return c;
  }
}
function checkOrder(state, edges, cfg, set, what) {
  const cells = state.cellIdsToCells([...set]).map((c) => c.model.id);
  const present = [...set].filter((id) => (cfg.order || ids).includes(id));
  if (str(cells) !== str(present) || new Set(cells).size !== cells.length)
    return violation('order', cfg, what + ': cells to run are ' + cells + ', but the closure has ' + present);
  const pos = Object.fromEntries(cells.map((id, i) => [id, i]));
  if (cfg.flow === 'in_order') {
    for (let i = 1; i < cells.length; i++)
      if (state.orderIdxById[cells[i - 1]] > state.orderIdxById[cells[i]]) return violation('order', cfg, what + ': not in notebook order: ' + cells);
  } else {
    if (cfg.part === 'cyclic' && !acyclic(edges)) return; // nothing to promise
    const path = {}; // also through cells that do not run
    ids.forEach((id) => { path[id] = reach([id], rel(edges.filter(([i, j]) => [ids[i], ids[j]].every((x) => (cfg.order || ids).includes(x))), 0, 1)); });
    for (const x of cells) for (const y of path[x]) if (x !== y && y in pos && pos[y] < pos[x] && !path[y].has(x))
      return violation('order', cfg, what + ': ' + y + ' runs before ' + x + ' on which it depends: ' + cells);
  }
}
function compare(state, edges, cfg, start, inclusive, parents, want) {
  out.executions++;
  const got = state.computeRawTransitiveClosure(start, inclusive, parents);
  const w = new Set(want);
  if (!inclusive) start.forEach((s) => w.delete(s));
  const full = Object.assign({ edges: edges.map(([i, j]) => ids[i] + '->' + ids[j]), start, inclusive, parents }, cfg);
  const what = 'edges ' + full.edges + ' start ' + start + (parents ? ' backward' : '') + (inclusive ? '' : ' exclusive') + ' ' + JSON.stringify(cfg);
  out.outcomes.add(str(got));
  if (str(got) !== str(w)) return violation(cfg.part, full, what + ': closure is {' + [...got] + '}, should be {' + [...w] + '}');
  checkOrder(state, edges, full, got, what);
  if (out.samples.length < 3 && edges.length > 2) out.samples.push(what + ' => ' + state.cellIdsToCells([...got]).map((c) => c.model.id));
}
function* perms(xs) {
  if (xs.length <= 1) { yield xs; return; }
  for (let i = 0; i < xs.length; i++) for (const p of perms(xs.filter((_, j) => j !== i))) yield [xs[i], ...p];
}

if (part === 'closure' || part === 'cyclic') {
  // forward and backward slices; every graph, start set, order of cells in the notebook
  for (const edges of graphs(part === 'cyclic' ? 'cyclic' : 'any')) {
    out.states++;
    for (const flow of ['in_order', 'any_order']) {
      const orders = n <= 3 ? [...perms(ids), ...perms(ids.slice(1)), ...perms(ids.slice(0, n - 1))] : [ids, [...ids].reverse(), ids.slice(1), ids.slice(0, n - 1)];
      for (const order of orders) {
        if (part === 'cyclic' && order.length < n) continue;
        const cfg = { part, flow, order };
        const state = make(edges, cfg);
        for (const start of subsets(ids)) {
          if (!start.length) continue;
          for (const parents of [false, true]) for (const inclusive of [true, false])
            compare(state, edges, cfg, start, inclusive, parents, reach(start, rel(edges, parents ? 1 : 0, parents ? 0 : 1)));
        }
      }
    }
  }
} else if (part === 'pull') {
  const kinds = ['unexecuted', 'ready', 'waiting', 'dirty'];
  for (const edges of graphs(nArg > 4 ? 'inorder' : 'any')) {
    out.states++;
    for (const stale of subsets(ids)) for (const cousins of [false, true]) for (let kind = 0; kind < (n <= 3 ? 4 : 1); kind++) {
      const cfg = { part, flow: n > 4 ? 'in_order' : 'any_order', pull: true, stale, cousins, kind, settings: { pull_reactive_updates: true, push_reactive_updates_to_cousins: cousins } };
      const state = make(edges, cfg);
      stale.forEach((id) => {
        const k = kinds[(kind + ids.indexOf(id)) % 4];
        if (k === 'unexecuted') state.executedCells.delete(id);
        else state[k + 'Cells'].add(id);
      });
      for (const start of subsets(ids)) if (start.length) {
        compare(state, edges, cfg, start, true, false, expected(edges, start, cfg));
        compare(state, edges, cfg, start, true, true, reach(start, rel(edges, 1, 0)));
      }
    }
  }
} else if (part === 'stale') {
  // parents that other cells have overwritten: closed under the rules, nothing superfluous
  for (const edges of graphs('inorder')) {
    out.states++;
    const es = edges.map(([i, j]) => [ids[i], ids[j]]);
    const byChoices = [];
    for (const [p, x] of es) for (const e of ids) if (e !== x && e !== p && ids.indexOf(e) > ids.indexOf(p) && ids.indexOf(e) < ids.indexOf(x)) byChoices.push([p, x, e]);
    for (const sp of subsets(es)) for (const by of subsets(byChoices)) {
      if (sp.length + by.length === 0) continue;
      const staleParents = {}, staleBy = {}, staleByExec = {};
      sp.forEach(([p, x]) => (staleParents[x] = staleParents[x] || []).push(p));
      by.forEach(([p, x, e]) => {
        ((staleBy[x] = staleBy[x] || {})[e] = staleBy[x][e] || []).push(p);
        ((staleByExec[e] = staleByExec[e] || {})[x] = staleByExec[e][x] || []).push(p);
      });
      const cfg = { part, flow: 'in_order', pull: true, stale: [], cousins: false, staleParents, staleBy, settings: { pull_reactive_updates: true } };
      const state = make(edges, cfg);
      state.staleParents = staleParents; state.staleParentsByExecutedCellByChild = staleBy; state.staleParentsByChildByExecutedCell = staleByExec;
      for (const start of subsets(ids)) {
        if (!start.length) continue;
        out.executions++;
        const got = state.computeRawTransitiveClosure(start, true, false), want = expected(edges, start, cfg), most = expected(edges, start, cfg, true);
        out.outcomes.add(str(got));
        const full = Object.assign({ edges: es.map((e) => e.join('->')), start }, cfg);
        const what = 'edges ' + full.edges + ' start ' + start + ' ' + JSON.stringify(cfg) + ': closure {' + [...got] + '}';
        for (const x of got) if (!most.has(x)) violation(part, full, what + ' contains ' + x + ' needlessly (expected {' + [...most] + '})');
        for (const x of want) if (!got.has(x)) violation(part, full, what + ' lacks ' + x + ' (expected {' + [...want] + '})');
        checkOrder(state, edges, full, got, what);
      }
    }
  }
}
out.outcomes = [...out.outcomes];
console.log(JSON.stringify(out));
