// Turns the transitions TLC emitted into replayable behaviours that together cover every transition.
/** emitted: [{s, a, t, o, l}] where s/t are state keys (any JSON), a the action label, o the expected observation */
const sorted = (v) => (Array.isArray(v) ? v.map(sorted) : v !== null && typeof v === "object" ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, sorted(v[k])])) : v);
export class Graph {
  constructor() { this.ids = new Map(); this.nodes = []; this.edges = []; this.seen = new Set(); this.inits = new Set(); }
  id(k) {
    const s = JSON.stringify(sorted(k));
    let i = this.ids.get(s);
    if (i === undefined) { i = this.nodes.length; this.ids.set(s, i); this.nodes.push({ key: k, out: [] }); }
    return i;
  }
  add(e) {
    const s = this.id(e.s), t = this.id(e.t);
    if (e.l === 1) this.inits.add(s);
    const k = `${s}>${t}:${JSON.stringify(e.a)}`;
    if (this.seen.has(k)) return;
    this.seen.add(k);
    this.nodes[s].out.push(this.edges.length);
    this.edges.push({ s, t, a: e.a, o: e.o });
  }
  /** Behaviours covering every edge; each starts in an initial state and is at most maxLen long beyond the shortest prefix. */
  tours(maxLen = 40, rng = Math.random, limit = Infinity) {
    const parent = new Map();
    const queue = [];
    for (const i of this.inits) { parent.set(i, null); queue.push(i); }
    for (let q = 0; q < queue.length; q++) {
      for (const ei of this.nodes[queue[q]].out) {
        const t = this.edges[ei].t;
        if (!parent.has(t)) { parent.set(t, ei); queue.push(t); }
      }
    }
    const prefix = (n) => { const p = []; for (let e = parent.get(n); e !== null && e !== undefined; e = parent.get(this.edges[e].s)) p.push(e); return p.reverse(); };
    const covered = new Uint8Array(this.edges.length);
    const nextUncovered = new Map();
    const pick = (n) => {
      const out = this.nodes[n].out;
      let i = nextUncovered.get(n) ?? 0;
      while (i < out.length && covered[out[i]]) i++;
      nextUncovered.set(n, i);
      return i < out.length ? out[i] : -1;
    };
    const tours = [];
    // deepest sources first, so that prefixes cover a lot
    for (let q = queue.length - 1; q >= 0; q--) {
      let e;
      while ((e = pick(queue[q])) >= 0) {
        if (tours.length >= limit) return { tours, covered: covered.reduce((a, b) => a + b, 0) };
        const p = prefix(queue[q]);
        for (const x of p) covered[x] = 1;
        let n = queue[q], len = 0;
        while (len < maxLen) {
          let x = pick(n);
          if (x < 0) break;
          covered[x] = 1; p.push(x); n = this.edges[x].t; len++;
        }
        const first = p.length ? this.edges[p[0]].s : queue[q];
        tours.push({ init: this.nodes[first].key, steps: p.map((x) => ({ a: this.edges[x].a, o: this.edges[x].o })) });
      }
    }
    return { tours, covered: covered.reduce((a, b) => a + b, 0) };
  }
}
export function rngOf(seed) { // mulberry32
  let a = (seed >>> 0) ^ 0x9e3779b9;
  return () => { a |= 0; a = (a + 0x6d2b79f5) | 0; let t = Math.imul(a ^ (a >>> 15), 1 | a); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
}
