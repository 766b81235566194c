'use strict';
// Drives the real code along a schedule of the design model (spec/Design.tla):
// one step of the schedule per operation, in ticks of cfg.u to a millisecond.
// A step about something that is not there (the code under test may differ
// from the design) is left out. Says, for each step taken, whether the code
// did what the design says it does; that is for the record only.
const { limbs } = require('./host.js');
const { Driver, Rng } = require('./gen.js');

// positions of the times in a step
const TIMES = { host: [1], cbx: [1], sn: [2], su: [2], sr: [2], in: [2], ia: [2, 3], tn: [3, 5], qi: [4], qr: [4], ad: [1, 2], react: [4] };

// Under cfg.digits the model's time is read as digits (base cfg.digits[0]) of
// a wheel, each standing for a digit of the real, larger wheel.
function clockOf(cfg) {
  const tick = 1000000n / BigInt(cfg.u || 1);
  if (!cfg.digits) return (t) => BigInt(t) * tick;
  const [base, to] = cfg.digits;
  return (t) => {
    let r = 0n, p = 1n, x = t;
    for (; x > 0; x = Math.floor(x / base), p *= 64n) r += BigInt(to[x % base]) * p;
    return r * 1000000n;
  };
}

function walk(w, sc) {
  const cfg = sc.cfg;
  const ns = clockOf(cfg);
  const d = new Driver(w, new Rng(1 + sc.sched.length), { mix: 'mid', jump: false });
  d.nid = 5000; d.nwk = 5000;
  const keys = new Map();        // queue -> the design's key -> the driver's number for it
  const res = [];
  for (const { x, e } of sc.sched) {
    const s = x.slice();
    for (const i of TIMES[s[0]] || []) s[i] = ns(s[i]);
    const before = w.events.length;
    take(w, s, keys);
    if (e.o === 'none') continue;
    if (w.events.length === before) { res.push({ diff: 'left out', x }); continue; }
    const diff = cfg.digits ? alike(w, w.events[w.events.length - 1], e, true) : alike(w, w.events[w.events.length - 1], e, false, ns, cfg.endless);
    res.push(diff ? { diff, x, id: sc.id } : {});
  }
  d.finish();
  return res;
}

function take(w, s, keys) {
  const [o, id] = s;
  const op = (...a) => w.op(a);
  switch (o) {
    case 'host': return op('host', s[1]);
    case 'cbx': {
      const c = w.nextDue();
      // (the endless models look more often than the code does)
      if (!c || (w.cfg.endless && c.due > s[1])) return op('host', s[1]);
      return op('cb', c.id, c.due > w.H ? c.due : w.H);
    }
    case 'sn': case 'su': return w.sl.has(id) ? 0 : op(...s);
    case 'sp': case 'sr': case 'sd': return w.sl.has(id) ? op(...s) : 0;
    case 'react': return [2, 5].some((i) => s[i] && !w.sl.has(s[i])) || w.sl.has(s[3]) ? 0 : op(...s);
    case 'own': return w.sl.has(s[2]) ? op(...s) : 0;
    case 'in': case 'ia': return w.iv.has(id) ? 0 : op(...s);
    case 'ip': case 'ir': case 'ib': case 'iD': return w.iv.has(id) ? op(...s) : 0;
    case 'tn': return w.to.has(id) ? 0 : op(...s);
    case 'tp': case 'ti': case 'tc': return w.to.has(id) && !w.to.get(id).done ? op(...s) : 0;
    case 'td': return w.to.has(id) ? op(...s) : 0;
    case 'pa': return w.paused ? 0 : op('pa');
    case 're': return w.paused ? op('re') : 0;
    case 'ad': return w.paused ? op('ad', w.cfg.digits ? (s[2] > w.lib ? s[2] - w.lib : 0n) : s[1]) : 0;
    case 'qn': keys.set(id, new Map()); return w.q.has(id) ? 0 : op(...s);
    default:
  }
  if (!w.q.has(id)) return 0;
  const q = w.q.get(id);
  const byVal = (v) => { for (const [k, it] of q.items) if (it.val === v) return k; return 0; };
  switch (o) {
    case 'qi': {
      op('qi', id, s[2], s[3], s[4]);
      const e = w.events[w.events.length - 1];
      if (e.r.length) keys.get(id).set(s[5], e.r[0]);
      return 1;
    }
    case 'qr': { const k = byVal(s[3]); return k ? op('qr', id, s[2], k, s[4]) : 0; }
    case 'qm': { const k = byVal(s[2]); return k ? op('qm', id, k) : 0; }
    case 'qt': { const k = keys.get(id).get(s[2]); return k ? op('qt', id, k) : 0; }
    case 'qM': { const k = keys.get(id).get(s[2]); return k ? op('qm', id, k) : 0; }
    default: return op(...s);
  }
}

const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
// what differs between an event of the code and the design's
function alike(w, ev, e, mapped, ns, endless) {
  if (endless && ev.o === 'host' && e.o === 'cb') return '';
  if (ev.o !== e.o) return 'op ' + ev.o;
  if (ev.p !== (e.p || 0)) return 'panic';
  if (ev.p) return '';
  if (!mapped && !same(ev.now, limbs(ns(e.now)))) return 'now';
  if (!mapped && !same(ev.host, limbs(ns(e.host)))) return 'host';
  const sorted = (l) => l.slice().sort((a, b) => a - b);
  if (!same(sorted(ev.wk), sorted(e.wk))) return 'wakes ' + ev.wk + ' not ' + e.wk;
  if (!same(sorted(ev.el), sorted(e.el))) return 'elapsed';
  if (ev.hw && !same(ev.hw, e.hw)) return 'kept ' + ev.hw + ' not ' + e.hw;
  if (!mapped && !endless && !same(ev.arm.map((x) => x[1]), e.arm)) return 'callbacks ' + ev.arm.map((x) => x[1]) + ' not ' + e.arm;
  if (ev.o === 'qp' || ev.o === 'qm' || ev.o === 'qt') {
    if (ev.r[0] !== e.r[0] || (ev.r[0] === 1 && (ev.r[2] !== e.r[2] || (!mapped && !same(ev.r[3], e.r[3]))))) return 'result ' + JSON.stringify(ev.r) + ' not ' + JSON.stringify(e.r);
  } else if (ev.o !== 'qi' && !mapped && !same(ev.r, e.r)) return 'result ' + JSON.stringify(ev.r) + ' not ' + JSON.stringify(e.r);
  return '';
}

module.exports = { walk };
