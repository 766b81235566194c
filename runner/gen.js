'use strict';
// Schedules: seeded random drivers of the real code, one profile per kind of
// use. A driver sees the world's public state only to choose the next step.
const { World, Stop } = require('./host.js');

const US = 1000n, MS = 1000000n, S = 1000n * MS, HOUR = 3600n * S, DAY = 24n * HOUR, YEAR = 365n * DAY;

class Rng {
  constructor(a) { this.s = (a >>> 0) || 1; }
  next() { // mulberry32
    this.s = (this.s + 0x6d2b79f5) >>> 0;
    let t = this.s;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
  }
  int(n) { return Math.floor(this.next() * n); }
  p(x) { return this.next() < x; }
  pick(l) { return l[this.int(l.length)]; }
  big(n) { // 0..n-1
    let r = 0n;
    for (let i = 0; i < 3; i++) r = (r << 32n) | BigInt(Math.floor(this.next() * 4294967296));
    return n > 0n ? r % n : 0n;
  }
}

// ---- durations
function frac(r) { return r.p(0.5) ? 0n : r.p(0.5) ? r.big(1000n) * US : r.big(MS); }
function near(r, x) { const d = r.pick([-1n, 0n, 1n]) * r.pick([1n, US, MS, 2n * MS]); return x + d < 0n ? 0n : x + d; }
const dur = {
  short: (r) => BigInt(r.int(12)) * MS + frac(r),
  mid: (r) => (r.p(0.5) ? dur.short(r) : BigInt(r.int(300)) * MS + frac(r)),
  sec: (r) => BigInt(r.int(20000)) * MS + frac(r),
  far: (r) => near(r, r.pick([HOUR, DAY, 20n * DAY, 2147483647n * MS, 2147483648n * MS, 4294967295n * MS, 4294967296n * MS, 60n * DAY, YEAR, 3n * YEAR])),
  edge: (r) => near(r, r.pick([0n, MS, 5n * MS, 64n * MS, 100n * MS, 1000n * MS, 5000n * MS])),
  // around the rotations of the wheel's upper levels
  rota: (r) => {
    const p = r.pick([1n << 30n, 1n << 30n, 1n << 36n, 1n << 36n, 1n << 24n]);
    const k = p < (1n << 36n) ? BigInt(1 + r.int(63)) : 1n;
    let d = p * k + (r.p(0.5) ? BigInt(r.int(5) - 2) : r.p(0.7) ? -r.big(5000n) : r.big(1n << 30n) - (1n << 29n));
    if (d < 0n) d = 0n;
    return d * MS;
  },
  wheel: (r) => {
    const l = r.int(7); let x = 1n;
    for (let i = 0; i < l; i++) x *= 64n;
    const k = BigInt(1 + r.int(r.p(0.6) ? 3 : 63));
    let d = x * k + BigInt(r.int(3) - 1);
    if (d < 0n) d = 0n;
    return (d * MS) + (r.p(0.3) ? -frac(r) : 0n) < 0n ? 0n : d * MS;
  },
};
const mixes = {
  short: ['short', 'short', 'mid', 'edge'], mid: ['short', 'mid', 'mid', 'sec', 'edge'],
  sec: ['mid', 'sec', 'sec'], far: ['far', 'sec', 'short'], wheel: ['wheel', 'wheel', 'mid', 'short', 'edge'],
  rota: ['rota', 'rota', 'rota', 'wheel', 'mid'], wheelnear: ['mid', 'edge', 'short'],
};
const someDur = (r, mix) => dur[r.pick(mixes[mix])](r);

const MAXHOST = 25n * YEAR;

class Driver {
  constructor(w, r, o) {
    this.w = w; this.r = r; this.o = o;
    this.nid = 1; this.nwk = 1; this.nval = 1;
  }
  wk(old) {
    const m = this.r.next();
    if (old && m < 0.4) return old;
    return ++this.nwk;
  }
  ids(m) { return Array.from(m.keys()); }
  op(...a) { return this.w.op(a); }

  // ---- time
  // the host runs a callback
  fire(c) {
    const { r, o, w } = this;
    let t = c.due > w.H ? c.due : w.H;
    // by another clock than the one that is read: up to a millisecond early
    if (o.early && t > w.H && c.long && r.p(o.early)) { t -= r.p(0.5) ? r.big(MS) : BigInt(r.int(50)) * US; if (t < w.H) t = w.H; }
    if (o.late && r.p(o.late)) t += BigInt(1 + r.int(r.p(0.9) ? 8 : 200)) * MS + frac(r);
    this.op('cb', c.id, t);
  }
  // everything due by t is run, in order; a host that is asleep runs it all at t
  runTo(t, lim = 60) {
    const w = this.w;
    if (t > MAXHOST) t = MAXHOST;
    let n = 0;
    for (;;) {
      const c = w.nextDue();
      if (!c || c.due > t) break;
      if (n++ > lim) { // the host is suspended until t
        this.op('host', t);
        let k = 0;
        for (let d = w.due(); d && k++ < lim; d = w.due()) this.op('cb', d.id, w.H);
        break;
      }
      this.fire(c);
      if (this.o.react) this.o.react(this);
    }
    if (w.H < t) this.op('host', t);
  }
  drainDue() { let k = 0; for (let d = this.w.due(); d && k++ < 200; d = this.w.due()) { this.op('cb', d.id, this.w.H); } }
  // some time passes
  pass() {
    const { r, w, o } = this;
    const m = r.next();
    if (m < 0.35) { const c = w.nextDue(); if (c) { this.fire(c); return; } }
    if (m < 0.5) { // exactly to (or around) a deadline
      const ds = this.deadlines().filter((d) => d >= w.lib);
      if (ds.length) {
        const d = ds.sort((a, b) => (a < b ? -1 : 1))[r.int(Math.min(3, ds.length))];
        const t = w.H + (d - w.lib) + r.pick([0n, 0n, -1n, 1n, -MS, MS, 500n * US, 5n * MS, 6n * MS]);
        if (t - w.H < 4n * YEAR) { this.runTo(t > w.H ? t : w.H); return; }
      }
    }
    let d = r.p(0.7) ? dur.short(r) : someDur(r, o.mix);
    if (m > 0.9 && o.jump !== false) { // the host is busy: nothing runs
      if (w.H + d < MAXHOST) this.op('host', w.H + d);
      if (r.p(0.7)) this.drainDue();
      return;
    }
    this.runTo(w.H + d);
  }
  deadlines() {
    const w = this.w, l = [];
    for (const s of w.sl.values()) l.push(s.dl);
    for (const s of w.iv.values()) l.push(s.dl);
    for (const s of w.to.values()) if (!s.done) { l.push(s.dl); if (s.idl) l.push(s.idl); }
    for (const q of w.q.values()) for (const i of q.items.values()) l.push(i.at);
    return l;
  }
  // everything still open comes to its end
  settle() {
    const w = this.w;
    this.drainDue();
    for (let round = 0; round < 4; round++) {
      const ds = this.deadlines().filter((d) => d > w.lib).sort((a, b) => (a < b ? -1 : 1));
      if (!ds.length) break;
      const d = round < 3 ? ds[Math.min(ds.length - 1, this.r.int(3))] : ds[ds.length - 1];
      this.runTo(w.H + (d - w.lib) + BigInt(2 * w.cfg.min + 4) * MS, 80);
      if (w.H >= MAXHOST) break;
    }
    this.runTo(w.H + BigInt(2 * w.cfg.min + 4) * MS, 80);
  }

  // ---- sleeps
  target(mix) { // an absolute instant
    const { r, w } = this;
    if (r.p(0.12)) return w.lib > 3n * MS ? w.lib - r.big(3n * MS) : 0n;
    if (r.p(0.1)) return w.lib;
    const ds = this.deadlines().filter((x) => x < MAXHOST * 4n);
    if (ds.length && r.p(0.2)) return near(r, r.pick(ds));
    return w.lib + someDur(r, mix);
  }
  newSleep() {
    const { r, o } = this; const id = this.nid++;
    if (r.p(0.5)) this.op('sn', id, r.p(o.huge || 0) ? (1n << 64n) * S - 1n - r.big(3n) * S : someDur(r, o.mix));
    else this.op('su', id, this.target(o.mix));
    if (r.p(0.8)) this.op('sp', id, this.wk());
    return id;
  }
  sleepOp() {
    const { r, w, o } = this;
    const ids = this.ids(w.sl);
    const m = r.next();
    if (!ids.length || (m < (o.grow || 0.3) && ids.length < (o.max || 12))) { this.newSleep(); return; }
    const id = r.pick(ids);
    if (m < 0.6) this.op('sp', id, this.wk(w.sl.get(id).wk));
    else if (m < 0.85 && o.resets !== false) {
      if (o.burst && r.p(0.2)) this.op('sb', id, r.p(0.6) ? 2 + r.int(o.burst) : r.pick([16, 32, 64, 128, 256, 1024, 16384, 65536]) - 1 + r.int(3), this.target(o.mix));
      else this.op('sr', id, this.target(o.mix));
    } else if (o.drops !== false) this.op('sd', id);
    else this.op('sp', id, this.wk(w.sl.get(id).wk));
  }
  // a task that is woken polls
  answer(p = 0.6) {
    const { r, w } = this;
    const woken = w.wokenNow;
    if (!woken.length) return;
    const set = new Set(woken);
    for (const s of Array.from(w.sl.values())) if (set.has(s.wk) && r.p(p)) this.op('sp', s.id, this.wk(s.wk));
    for (const v of Array.from(w.iv.values())) if (set.has(v.wk) && r.p(p)) this.op('ip', v.id, this.wk(v.wk), r.int(2));
    for (const t of Array.from(w.to.values())) if (set.has(t.wk) && !t.done && r.p(p)) this.op('tp', t.id, this.wk(t.wk));
    for (const q of Array.from(w.q.values())) if (set.has(q.wk) && r.p(p)) this.qpoll(q.id);
  }
  // ---- intervals
  period(mix) {
    const { r, o } = this;
    const d = r.p(o.huge || 0) ? (1n << 64n) * S - 1n - r.big(3n) * S : someDur(r, mix);
    return d === 0n ? 1n + r.big(MS) : d;
  }
  newInterval() {
    const { r, o, w } = this; const id = this.nid++;
    let per = this.period(o.mix);
    if (r.p(0.5)) this.op('in', id, per); else this.op('ia', id, this.target(o.mix), per);
    if (r.p(0.6)) this.op('ib', id, r.int(3));
  }
  intervalOp() {
    const { r, w, o } = this;
    const ids = this.ids(w.iv);
    const m = r.next();
    if (!ids.length || (m < 0.15 && ids.length < (o.max || 4))) { this.newInterval(); return; }
    const id = r.pick(ids);
    if (m < 0.75) this.op('ip', id, this.wk(w.iv.get(id).wk), r.int(2));
    else if (m < 0.83) this.op('ir', id);
    else if (m < 0.93) this.op('ib', id, r.int(3));
    else if (m < 0.97) this.op('ii', id);
    else this.op('iD', id);
  }
  // ---- timeouts
  timeoutOp() {
    const { r, w, o } = this;
    const ids = this.ids(w.to);
    const m = r.next();
    if (!ids.length || (m < 0.25 && ids.length < (o.max || 6))) {
      const id = this.nid++;
      const kind = r.p(0.3) ? 1 : 0;
      const form = r.int(2);
      const t = form ? this.target(o.mix) : r.p(o.huge || 0) ? (1n << 64n) * S - 1n - r.big(3n) * S : someDur(r, o.mix);
      this.op('tn', id, form, t, kind, kind ? someDur(r, o.mix) : 0n);
      if (r.p(0.8)) this.op('tp', id, this.wk());
      return;
    }
    const id = r.pick(ids); const t = w.to.get(id);
    if (m < 0.55 && !t.done) this.op('tp', id, this.wk(t.wk));
    else if (m < 0.72 && t.kind === 0 && !t.ready && !t.done) this.op('tc', id, r.pick([0, 1, 42, 999999]));
    else if (m < 0.8 && !t.done) this.op('ti', id, this.wk());
    else if (m < 0.9) this.op('td', id);
    else if (!t.done) this.op('tp', id, this.wk(t.wk));
  }
  // ---- queues
  newQueue() {
    const { r } = this; const id = this.nid++;
    this.op('qn', id, r.int(3), r.int(20));
    return id;
  }
  qpoll(id) {
    const q = this.w.q.get(id);
    this.op('qp', id, this.wk(q.wk), this.r.int(2));
  }
  qreq(q) { // [form, time] of a request within the queue's horizon
    const { r, w, o } = this;
    const lim = q.hz + ((1n << 36n) - (q.hz > q.start ? 66n : 1n)) * MS;
    if (o.beyond && r.p(o.beyond)) return [1, lim + BigInt(r.int(130)) * MS];
    let form = r.int(2), t;
    if (w.lib > lim) return [1, r.p(0.5) ? lim - r.big(S) : q.start];
    if (form === 0) { t = someDur(r, o.mix); if (w.lib + t > lim) t = MS; } else {
      t = o.aligned && r.p(0.5) ? q.start + dur.wheel(r) : this.target(o.mix);
      if (t > lim) t = w.lib;
      if (r.p(0.05)) t = q.start > MS ? q.start - r.big(MS) : 0n;
    }
    return [form, t];
  }
  queueOp() {
    const { r, w, o } = this;
    const ids = this.ids(w.q);
    if (!ids.length || (r.p(0.01) && ids.length < 3)) { this.newQueue(); return; }
    const id = r.pick(ids); const q = w.q.get(id);
    const keys = Array.from(q.items.keys());
    const m = r.next();
    if (m < (o.grow || 0.35) && keys.length < (o.max || 10)) {
      const [f, t] = this.qreq(q); this.op('qi', id, f, this.nval++, t);
    } else if (m < 0.62) this.qpoll(id);
    else if (m < 0.72 && keys.length) {
      const [f, t] = this.qreq(q);
      // one that has left: the end of this execution
      const gone = o.gone && q.old.length ? q.old.filter((k) => !q.items.has(k)) : [];
      const k = gone.length && r.p(o.gone) ? r.pick(gone) : r.pick(keys);
      if (r.p(0.5) && !q.items.has(k)) this.op('qm', id, k); else this.op('qr', id, f, k, t);
    }
    else if (m < 0.79 && keys.length) this.op('qm', id, r.pick(keys));
    else if (m < 0.85 && (keys.length || q.old.length)) {
      const absent = q.old.length && (r.p(0.5) || !keys.length);
      this.op('qt', id, absent ? r.pick(q.old) : r.pick(keys));
    } else if (m < 0.85 + (o.compact || 0.04)) this.op('qk', id);
    else if (m < 0.92) this.op('qs', id);
    else if (m < 0.95) this.op('qv', id, r.int(30));
    else if (m < 0.95 + (o.clear || 0.015)) this.op('qc', id);
    else if (m < 0.975) this.op('qd', id);
    else this.qpoll(id);
  }
  // ---- test clock
  clockOp() {
    const { r, w } = this;
    if (!w.paused) { this.op('pa'); return; }
    if (r.p(0.25)) { this.op('re'); return; }
    let d = r.p(0.7) ? someDur(r, this.o.mix) : 0n;
    const ds = this.deadlines().filter((x) => x >= w.lib);
    if (ds.length && r.p(0.5)) {
      d = ds.sort((a, b) => (a < b ? -1 : 1))[r.int(Math.min(3, ds.length))] - w.lib + r.pick([0n, 0n, 1n, MS, 6n * MS]);
      if (r.p(0.15) && d > 0n) d -= 1n;
    }
    if (w.lib + d > MAXHOST) d = MS;
    this.op('ad', d);
  }
}

// ---- profiles: name -> (driver) => void
const P = {};
const loop = (d, n, f) => { for (let i = 0; i < n; i++) f(i); };

function mixed(opf, o) {
  return { o, run(d) {
    const n = o.steps || 60;
    loop(d, n, () => {
      if (d.r.p(o.op || 0.55)) opf(d); else d.pass();
      if (d.r.p(o.prompt || 0.8)) d.answer();
    });
    d.finish();
  } };
}
// the end of every schedule: all that is open comes due, and is looked at
Driver.prototype.finish = function () {
  const d = this;
  d.settle();
  d.answer(1);
  for (const id of d.ids(d.w.sl)) if (d.w.sl.has(id)) d.op('sp', id, d.wk());
  for (const id of d.ids(d.w.iv)) d.op('ip', id, d.wk(), 0);
  for (const [id, t] of Array.from(d.w.to)) if (!t.done) d.op('tp', id, d.wk());
  for (const id of d.ids(d.w.q)) d.finishQueue(id);
  d.runTo(d.w.H + BigInt(2 * d.w.cfg.min + 4) * MS);
};
// the task of a queue polls whenever it is woken until the queue is empty
Driver.prototype.finishQueue = function (id) {
  const w = this.w;
  let n = 0;
  for (;;) {
    const q = w.q.get(id);
    this.qpoll(id);
    if (!q.items.size && !q.parked) break;
    if (n++ > 60) break;
    if (q.parked) {
      let k = 0;
      const wk = q.wk;
      if (w.paused) { const d = Array.from(q.items.values()).map((x) => x.at).sort((a, b) => (a < b ? -1 : 1))[0]; if (d > w.lib && d < MAXHOST) { this.op('ad', d - w.lib + MS); continue; } break; }
      while (k++ < 40) {
        const c = w.nextDue(); if (!c || c.due > MAXHOST) return;
        this.fire(c);
        if (w.wokenNow.includes(wk)) break;
      }
      if (k >= 40) break;
    }
  }
};

P.sleep = mixed((d) => d.sleepOp(), { mix: 'mid' });
P.sleepshort = mixed((d) => d.sleepOp(), { mix: 'short', op: 0.6, late: 0.2 });
P.sleepfar = mixed((d) => d.sleepOp(), { mix: 'far', huge: 0.05, max: 8 });
P.sleepmany = mixed((d) => d.sleepOp(), { mix: 'sec', max: 140, grow: 0.55, steps: 260, op: 0.85, prompt: 0.3 });
P.sleepkeep = mixed((d) => d.sleepOp(), { mix: 'mid', resets: false, drops: false, max: 40, steps: 90 });
P.sleepreset = mixed((d) => d.sleepOp(), { mix: 'mid', max: 5, burst: 400, grow: 0.15, steps: 80 });
// hundreds at once
P.sleepcrowd = { o: { mix: 'sec' }, run(d) {
  const { r, w } = d;
  const n = 262 + r.int(60);
  loop(d, n, () => {
    if (r.p(0.5)) d.op('sn', d.nid, someDur(r, 'sec')); else d.op('su', d.nid, w.lib + someDur(r, 'mid'));
    if (r.p(0.4)) d.op('sp', d.nid, d.wk());
    d.nid++;
  });
  d.drainDue();
  loop(d, 90, () => {
    const id = r.pick(d.ids(w.sl));
    const m = r.next();
    if (m < 0.4) d.op('sr', id, d.target('sec'));
    else if (m < 0.6) d.op('sd', id);
    else if (m < 0.8) d.op('sp', id, d.wk(w.sl.get(id).wk));
    else d.pass();
  });
  d.settle();
  for (const id of d.ids(w.sl)) if (r.p(0.3)) d.op('sp', id, d.wk());
} };
// far sleeps created in turns of their own, then near ones
P.sleepturns = { o: { mix: 'sec' }, run(d) {
  const n = 18 + d.r.int(30);
  const dist = d.r.p(0.5) ? HOUR : 30n * S;
  loop(d, n, (i) => {
    const id = d.nid++;
    d.op('sn', id, d.r.p(0.4) ? dist : dist + BigInt(i) * S);
    d.op('sp', id, d.wk());
    d.runTo(d.w.H + BigInt(5 + d.r.int(10)) * MS);
    if (d.r.p(0.1)) d.op('sd', id);
  });
  if (d.r.p(0.7)) d.runTo(d.w.H + 12n * S);
  loop(d, 6, () => { d.newSleep(); d.pass(); d.answer(); });
  d.settle();
} };
// wakers that run their task inside the wake
P.react = { o: { mix: 'mid' }, run(d) {
  const used = new Set();
  loop(d, 25, () => {
    if (d.r.p(0.5)) {
      const id = d.nid++, fresh = d.r.p(0.7) ? d.nid++ : 0;
      const wk = ++d.nwk;
      // it drops itself, or a sleep with a deadline far away
      const far = d.ids(d.w.sl).filter((k) => d.w.sl.get(k).keep && !used.has(k));
      const drop = d.r.p(0.5) ? id : far.length && d.r.p(0.5) ? d.r.pick(far) : 0;
      if (drop) used.add(drop);
      d.op('sn', id, someDur(d.r, 'mid'));
      // or moves one of those, which is not dropped any more
      const mv = far.filter((k) => k !== drop && !used.has(k));
      const rst = mv.length && d.r.p(0.4) ? d.r.pick(mv) : 0;
      if (rst) used.add(rst);
      const dl = someDur(d.r, 'mid');
      d.op('react', wk, drop, fresh, rst && dl < MS ? dl + MS : dl, rst);
      d.op('sp', id, wk);
    } else if (d.r.p(0.3)) {
      const id = d.nid++; d.op('sn', id, HOUR); d.w.sl.get(id).keep = true; d.op('sp', id, d.wk());
    }
    if (d.o.tu && d.r.p(0.5)) d.clockOp(); else d.pass();
  });
  if (d.o.tu) { if (!d.w.paused) d.op('pa'); for (let i = 0; i < 6; i++) d.op('ad', someDur(d.r, 'mid')); }
  d.settle();
} };
P.tureact = { o: { mix: 'mid', tu: true }, run: P.react.run };
// wakers that keep their task, and with it a sleep of that task
P.owner = { o: { mix: 'mid' }, run(d) {
  const mine = new Set(), owning = new Map(); // sleeps which wakers keep; what is polled with such a waker
  loop(d, 40, () => {
    const m = d.r.next(), own = d.ids(d.w.sl).filter((k) => owning.has(k)), any = d.ids(d.w.sl);
    if (m < 0.45 || !any.length) {
      const id = d.nid++, kept = d.nid++, wk = ++d.nwk;
      d.op('sn', id, d.r.p(0.3) ? HOUR : someDur(d.r, 'mid'));
      d.op('sn', kept, d.r.p(0.5) ? HOUR : someDur(d.r, 'mid'));
      d.op('own', wk, kept);
      mine.add(kept); owning.set(id, wk);
      // perhaps a task which only another such waker keeps
      if (d.r.p(0.3)) { const k2 = d.nid++, w2 = ++d.nwk; d.op('sn', k2, HOUR); d.op('own', w2, k2); mine.add(k2); d.op('sp', kept, w2); owning.set(kept, w2); } else if (d.r.p(0.5)) d.op('sp', kept, d.wk());
      if (d.w.sl.has(id)) d.op('sp', id, wk);
    } else if (m < 0.65 && own.length) { // another task waits from now on
      const id = d.r.pick(own); owning.delete(id); d.op('sp', id, d.wk());
    } else if (m < 0.85 && own.length) {
      const id = d.r.pick(own); owning.delete(id); d.op('sd', id);
    } else if (m < 0.95) d.op('sr', d.r.pick(any), d.w.lib + someDur(d.r, 'mid'));
    if (d.o.tu && d.r.p(0.3)) d.clockOp(); else if (d.r.p(0.5)) d.pass();
  });
  if (d.o.tu) { if (!d.w.paused) d.op('pa'); for (let i = 0; i < 6; i++) d.op('ad', someDur(d.r, 'mid')); }
  d.settle();
} };
P.tuowner = { o: { mix: 'mid', tu: true }, run: P.owner.run };
// one waker for many sleeps (a task that waits for several)
P.sleepshared = { o: { mix: 'mid', max: 10 }, run(d) {
  d.wk = () => 7 + d.r.int(2);
  P.sleep.run(d);
} };
// created and dropped or reset over and over, then left alone
P.idle = { o: { mix: 'sec' }, run(d) {
  const n = 5 + d.r.int(60);
  loop(d, n, () => {
    const id = d.nid++;
    const m = d.r.next();
    d.op('sn', id, m < 0.3 ? dur.far(d.r) : m < 0.6 ? 40n * S + dur.sec(d.r) : 60n * S);
    if (d.r.p(0.5)) d.op('sp', id, d.wk());
    if (d.r.p(0.3)) d.op('sr', id, d.w.lib + (d.r.p(0.5) ? 90n * S : dur.far(d.r)));
    if (d.r.p(0.4)) d.op('sd', id);
    if (d.r.p(0.6)) d.runTo(d.w.H + BigInt(2 + d.r.int(8)) * MS);
  });
  let k = 0;
  const end = d.w.H + 60n * S + dur.sec(d.r) * 5n;
  while (k++ < 150) { const c = d.w.nextDue(); if (!c || c.due > end) break; d.fire(c); }
  if (d.w.H < end) { k = 0; }
  k = 0;
  while (k++ < 60) { const c = d.w.nextDue(); if (!c || c.due > MAXHOST) break; d.fire(c); }
} };
P.idlefar = { o: { mix: 'far', huge: 0.2 }, run(d) {
  const n = 1 + d.r.int(3);
  loop(d, n, () => { const id = d.nid++; d.op('sn', id, d.r.p(0.1) ? (1n << 64n) * S - 1n : dur.far(d.r)); d.op('sp', id, d.wk()); d.runTo(d.w.H + dur.sec(d.r)); });
  let k = 0;
  while (k++ < 120) { const c = d.w.nextDue(); if (!c || c.due > MAXHOST) break; d.fire(c); }
} };

P.interval = mixed((d) => d.intervalOp(), { mix: 'mid', late: 0.3, steps: 70, max: 3 });
P.intervalshort = mixed((d) => d.intervalOp(), { mix: 'short', late: 0.5, steps: 70, max: 2, prompt: 0.5 });
P.intervalfar = mixed((d) => d.intervalOp(), { mix: 'far', huge: 0.1, late: 0.2, steps: 40, max: 3 });
// one interval, whose consumer lags by chosen amounts
P.lag = { o: { mix: 'mid', late: 0 }, run(d) {
  const { r, w } = d;
  const per = r.p(0.2) ? 1n + r.big(10n * MS) : BigInt(1 + r.int(120)) * MS + (r.p(0.4) ? r.big(MS) : 0n);
  const id = d.nid++;
  if (r.p(0.5)) d.op('in', id, per); else d.op('ia', id, w.lib + someDur(r, 'mid'), per);
  d.op('ib', id, r.int(3));
  loop(d, 14, () => {
    const v = w.iv.get(id);
    const m = r.next();
    let lag = m < 0.3 ? 0n : m < 0.6 ? near(r, 5n * MS) : m < 0.8 ? BigInt(r.int(8)) * per + (r.p(0.5) ? 0n : r.big(per)) : near(r, per * BigInt(1 + r.int(4)));
    if (r.p(0.1)) lag = near(r, per - 5n * MS > 0n ? per - 5n * MS : per);
    if (r.p(0.6)) d.op('ip', id, d.wk(v.wk), r.int(2));
    let t = v.dl > w.lib ? w.H + (v.dl - w.lib) : w.H;
    // let the timer notice it (on the whole millisecond), then lag
    d.runTo(t + BigInt(w.cfg.min) * MS);
    if (t + lag > w.H) d.op('host', t + lag);
    if (r.p(0.8)) d.drainDue();
    d.op('ip', id, d.wk(v.wk), r.int(2));
    if (r.p(0.3)) d.op('ip', id, d.wk(v.wk), r.int(2));
    if (r.p(0.12)) d.op('ib', id, r.int(3));
    if (r.p(0.08)) d.op('ir', id);
  });
  d.settle();
} };
P.timeout = mixed((d) => d.timeoutOp(), { mix: 'mid', late: 0.2, steps: 70 });
P.timeoutfar = mixed((d) => d.timeoutOp(), { mix: 'far', huge: 0.3, steps: 40 });

P.queue = mixed((d) => d.queueOp(), { gone: 0.01, mix: 'mid', steps: 90, max: 14 });
P.queueshort = mixed((d) => d.queueOp(), { mix: 'short', steps: 90, max: 6, late: 0.2 });
P.queuewheel = mixed((d) => d.queueOp(), { mix: 'wheel', aligned: true, steps: 90, max: 14 });
P.queuebig = mixed((d) => d.queueOp(), { mix: 'wheel', aligned: true, steps: 220, max: 80, grow: 0.5, op: 0.8 });
P.queuekeys = mixed((d) => d.queueOp(), { gone: 0.03, mix: 'mid', steps: 140, max: 9, compact: 0.08, clear: 0.01, op: 0.8 });
P.queuekeysbig = mixed((d) => d.queueOp(), { gone: 0.005, mix: 'mid', steps: 260, max: 90, grow: 0.48, compact: 0.05, clear: 0.004, op: 0.88 });
P.queuecrowd = { o: { mix: 'wheel', aligned: true }, run(d) {
  const { r, w } = d;
  d.o.mix = r.pick(['mid', 'wheel', 'sec']);
  const id = d.newQueue();
  const q = w.q.get(id);
  const put = () => { const [f, t] = d.qreq(q); d.op('qi', id, f, d.nval++, t); };
  loop(d, 270 + r.int(60), put);
  d.qpoll(id);
  loop(d, 160, () => {
    const keys = Array.from(q.items.keys());
    if (!keys.length) { put(); return; }
    const m = r.next();
    if (m < 0.3) d.op('qm', id, r.pick(keys));
    else if (m < 0.36) d.op('qk', id);
    else if (m < 0.4) d.op('qs', id);
    else if (m < 0.6) { const [f, t] = d.qreq(q); d.op('qr', id, f, r.pick(keys), t); }
    else if (m < 0.75) put();
    else if (m < 0.9) d.qpoll(id);
    else d.pass();
  });
  d.finish();
} };
P.queuerota = mixed((d) => d.queueOp(), { mix: 'rota', steps: 70, max: 5, beyond: 0.004, clear: 0.004 });
P.queuefew = mixed((d) => d.queueOp(), { mix: 'mid', steps: 60, max: 2, grow: 0.25, prompt: 1, late: 0.1 });
// a queue used as meant: a task that polls when woken, other tasks that insert, reset and remove
P.queuetask = { o: { mix: 'mid', aligned: true }, run(d) {
  const { r, w } = d;
  d.o.mix = r.pick(['mid', 'wheel', 'short', 'sec']);
  if (r.p(0.3)) d.runTo(dur.sec(r));
  const id = d.newQueue();
  const q = w.q.get(id);
  loop(d, 45, () => {
    const keys = Array.from(q.items.keys());
    const m = r.next();
    if (m < 0.3 && keys.length < 12) { const [f, t] = d.qreq(q); d.op('qi', id, f, d.nval++, t); }
    else if (m < 0.4 && keys.length) { const [f, t] = d.qreq(q); d.op('qr', id, f, r.pick(keys), t); }
    else if (m < 0.48 && keys.length) d.op(r.pick(['qm', 'qt']), id, r.pick(keys));
    else if (m < 0.5) d.op('qc', id);
    else if (m < 0.53) d.op('qk', id);
    else { const c = w.nextDue(); if (r.p(0.7) && c && c.due < MAXHOST) d.fire(c); else d.pass(); }
    // woken, or not waiting: poll until pending
    let n = 0;
    while ((!q.parked || w.wokenNow.includes(q.wk)) && n++ < 20) { if (!q.items.size && q.parked === false && n > 1) break; d.qpoll(id); }
  });
  d.finishQueue(id);
} };

// ---- under the test clock
const tuwrap = (opf, o) => mixed((d) => { if (d.r.p(o.clock || 0.25)) d.clockOp(); else opf(d); }, Object.assign({ tu: true }, o));
P.tusleep = tuwrap((d) => d.sleepOp(), { mix: 'mid', steps: 70 });
P.tusleepfar = tuwrap((d) => d.sleepOp(), { mix: 'far', steps: 50, max: 6 });
P.tuinterval = tuwrap((d) => d.intervalOp(), { mix: 'mid', steps: 70, max: 3 });
P.tutimeout = tuwrap((d) => d.timeoutOp(), { mix: 'mid', steps: 70 });
P.tuqueue = tuwrap((d) => d.queueOp(), { mix: 'mid', steps: 90 });
P.tuqueuewheel = tuwrap((d) => d.queueOp(), { mix: 'wheel', aligned: true, steps: 90, max: 14 });
P.tuqueuerota = tuwrap((d) => d.queueOp(), { mix: 'rota', aligned: true, steps: 110, max: 8, clock: 0.2, beyond: 0.004, clear: 0.004 });
P.tumany = tuwrap((d) => d.sleepOp(), { mix: 'sec', max: 90, grow: 0.6, steps: 160, op: 0.9, clock: 0.08 });
// the clock alone, and its misuse at the end
P.clock = { o: { mix: 'mid', tu: true }, run(d) {
  const { r, w } = d;
  loop(d, 40, () => {
    if (r.p(0.5)) d.clockOp();
    else if (r.p(0.3)) d.op('host', w.H + someDur(r, r.pick(['mid', 'far', 'short'])));
    else if (r.p(0.3)) { // an instant, from when the clock was in whatever state
      const i = 1 + r.int(4);
      d.seen = d.seen || new Set();
      if (d.seen.has(i) && r.p(0.7)) d.op('xe', i);
      if (r.p(0.6)) { d.op('xn', i); d.op('xe', i); d.seen.add(i); }
    }
    else d.pass();
  });
  const m = r.int(3);
  if (m === 0) { if (!w.paused) d.op('pa'); d.op('pa'); }
  if (m === 1) { if (w.paused) d.op('re'); d.op('re'); }
  if (m === 2) { if (w.paused) d.op('re'); d.op('ad', dur.mid(r)); }
} };
// all parts at once
P.all = mixed((d) => d.r.pick([() => d.sleepOp(), () => d.intervalOp(), () => d.timeoutOp(), () => d.queueOp()])(),
  { mix: 'mid', steps: 120, max: 6 });
P.tuall = tuwrap((d) => d.r.pick([() => d.sleepOp(), () => d.intervalOp(), () => d.timeoutOp(), () => d.queueOp()])(),
  { mix: 'mid', steps: 120, max: 6, clock: 0.12 });

// ---- what is kept
const anyOp = (d) => d.r.pick([() => d.sleepOp(), () => d.sleepOp(), () => d.intervalOp(), () => d.timeoutOp(), () => d.queueOp()])();
P.hold = mixed(anyOp, { mix: 'mid', steps: 110, max: 6, clear: 0.04, hold: true });
P.holdfar = mixed(anyOp, { mix: 'far', steps: 70, max: 5, hold: true });
P.tuhold = tuwrap(anyOp, { mix: 'mid', steps: 110, max: 6, clock: 0.15, hold: true });
// short lives by the hundred
P.churn = { o: { mix: 'mid', hold: true }, run(d) {
  const { r, w } = d;
  const q = d.nid++;
  d.op('qn', q, 0, 0);
  // no waker and no table of the driver's own comes on later
  let n = 0;
  d.wk = () => 1 + (n++ % 24);
  if (r.p(0.5)) d.newSleep();
  const turn = () => {
    const id = d.nid++;
    d.op('sn', id, r.p(0.5) ? dur.short(r) : far()); if (r.p(0.8)) d.op('sp', id, d.wk());
    if (!w.paused) { const c = w.nextDue(); if (c) d.fire(c); } else if (r.p(0.5)) d.op('ad', dur.short(r));
    d.op('sd', id);
  };
  const calm = () => { if (w.paused) { d.op('re'); d.runTo(w.H + BigInt(w.cfg.min + 9) * MS); } else d.runTo(w.H + BigInt(2 * w.cfg.min + 6) * MS); };
  const far = () => HOUR + (r.p(0.5) ? someDur(r, 'sec') : r.big(300n * DAY));
  for (let k = 0; k < 24; k++) d.op('ch', k % 12, 150, q, far(), d.wk());
  loop(d, 8, turn);
  calm();
  d.op('mm');
  loop(d, 6, () => {
    const kinds = r.p(0.5) ? [r.int(12)] : [r.int(12), r.int(12), r.int(12)];
    loop(d, 5, () => {
      for (const k of kinds) d.op('ch', k, 60 + r.int(90), q, r.p(0.7) ? far() : HOUR + someDur(r, 'mid'), d.wk());
      if (r.p(0.4)) d.runTo(w.H + BigInt(r.int(12)) * MS);
      if (d.o.tu && r.p(0.3)) { if (!w.paused) d.op('pa'); else if (r.p(0.5)) d.op('ad', someDur(r, 'mid')); else d.op('re'); }
      if (r.p(0.5)) turn();
    });
    if (r.p(0.5)) loop(d, 100, turn);
    calm();
    d.op('mm');
  });
} };
P.tuchurn = { o: { mix: 'mid', hold: true, tu: true }, run: P.churn.run };

// ---- values
const TMAX = (1n << 64n) * S - 1n;
function anyTime(r) {
  const m = r.next();
  if (m < 0.1) return r.pick([0n, 1n, 999999999n, S, TMAX, TMAX - 1n, TMAX - S, TMAX - 999999999n, (1n << 63n) * S]);
  if (m < 0.4) return r.big(10n * S);
  if (m < 0.5) return r.big(1000n) * S;
  if (m < 0.7) return r.big(1n << 64n);
  const b = BigInt(1 + r.int(94)); const x = r.big(1n << b); return x > TMAX ? TMAX : x;
}
P.instant = { o: {}, run(d) {
  const { r } = d; const x = () => 1 + r.int(6);
  for (let i = 1; i <= 6; i++) d.op('xs', i, anyTime(r));
  d.panics = 0;
  const vals = (i) => d.val && d.val[i];
  loop(d, 90, () => {
    const m = r.next();
    if (m < 0.55) {
      let op = r.int(6);
      // operators that overflow panic, which wears the instance out: only a few
      if (op > 1 && d.panics > 4) op = r.int(2);
      d.op('xa', op, x(), x(), r.p(0.3) ? d.lastT || 0n : anyTime(r));
      const e = d.w.events[d.w.events.length - 1];
      if (e.p) d.panics++;
      else if (e.r.length) { const l = e.r[0]; d.lastT = (BigInt(l[0]) * 1000000000n * 1000000000n + BigInt(l[1]) * 1000000000n + BigInt(l[2])) * S + BigInt(l[3]); if (r.p(0.4)) d.lastT = TMAX - d.lastT + r.pick([0n, 0n, 1n]); if (d.lastT > TMAX) d.lastT = TMAX; }
    } else if (m < 0.78) d.op('xd', r.int(4), x(), x());
    else if (m < 0.95) d.op('xc', x(), x());
    else d.op('xs', x(), anyTime(r));
  });
} };
P.now = { o: { mix: 'mid' }, run(d) {
  const { r, w } = d;
  loop(d, 60, () => {
    const m = r.next();
    if (m < 0.45) { // the host's clock moves by any amount of nanoseconds
      const h = w.H + (r.p(0.3) ? r.big(2000n) : r.p(0.5) ? r.big(5n * MS) : r.p(0.9) ? r.big(10n * S) : r.big(YEAR));
      if (h < MAXHOST) d.op('host', h);
    } else if (m < 0.75) d.op('xn', 1 + r.int(4));
    else if (m < 0.8) d.op('xs', 1 + r.int(4), w.lib + r.big(S));
    else { const i = 1 + r.int(4); if (d.seen && d.seen.has(i)) d.op('xe', i); }
    const o = w.ops[w.ops.length - 1];
    if (o && (o[0] === 'xn' || o[0] === 'xs')) (d.seen = d.seen || new Set()).add(o[1]);
  });
} };
const DATEMAX = 8640000000000000n;
function yAbs(l) { return (BigInt(l[0]) * 1000000000n * 1000000000n + BigInt(l[1]) * 1000000000n + BigInt(l[2])) * S + BigInt(l[3]); }
P.system = { o: {}, run(d) {
  const { r, w } = d;
  const y = new Map();
  const note = (i) => { const e = w.events[w.events.length - 1]; if (e.r.length) y.set(i, e.r[0] ? -yAbs(e.r[1]) : yAbs(e.r[1])); };
  d.op('ye', 1); note(1);
  d.op('yn', 2); note(2);
  const range = DATEMAX * MS;
  loop(d, 80, () => {
    const ids = Array.from(y.keys()); const a = r.pick(ids);
    const m = r.next();
    if (m < 0.1) {
      const ms = r.p(0.8) ? BigInt(w.dateMs) + r.big(100000n) - 100n : r.big(2n * DATEMAX) - DATEMAX;
      d.op('date', Number(ms));
      const i = 1 + r.int(6); d.op('yn', i); note(i);
    } else if (m < 0.55) {
      const op = r.int(6), dst = 1 + r.int(6), add = op % 2 === 0;
      const room = (add ? range - y.get(a) : range + y.get(a));
      let t = r.p(0.5) ? r.big(10n * S) : r.p(0.3) ? (y.get(a) < 0n ? -y.get(a) : y.get(a)) + r.big(3n * MS) : r.big(room > 0n ? room : 1n);
      if (t > room) t = room > 0n ? r.big(room) : 0n;
      d.op('ya', op, dst, a, t); note(dst);
    } else if (m < 0.72) d.op('yd', a, r.pick(ids));
    else if (m < 0.8) d.op('yl', a);
    else d.op('yc', a, r.pick(ids));
  });
} };
P.serde = { o: {}, run(d) {
  const { r, w } = d;
  const range = DATEMAX * MS;
  const y = new Map();
  const note = (i) => { const e = w.events[w.events.length - 1]; if (e.r.length && !e.p) y.set(i, e.r[0] ? -yAbs(e.r[1]) : yAbs(e.r[1])); };
  d.op('ye', 1); note(1); d.op('yn', 2); note(2);
  const U64 = (1n << 64n) - 1n;
  const num = (lim) => String(r.p(0.15) ? r.pick([lim, lim + 1n, lim - 1n]) : r.p(0.5) ? r.big(2000000000n) : r.big(lim + 1n));
  const nano = () => ['nanos_since_epoch', 'num', r.p(0.6) ? String(r.big(1000n) * 1000000n) : num((1n << 32n) - 1n)];
  const sec = () => ['secs_since_epoch', 'num', r.p(0.6) ? String(r.big(8640000000000n)) : num(U64)];
  // a text, or another format
  const how = (doc) => { if (r.p(0.5)) doc.via = doc.form === 'seq' ? 3 : 1 + r.int(2); return doc; };
  loop(d, 60, () => {
    const ids = Array.from(y.keys()); const a = r.pick(ids);
    const m = r.next();
    if (m < 0.25) {
      const add = r.p(0.8);
      const room = add ? range - y.get(a) : range + y.get(a);
      const t = room > 0n ? (r.p(0.5) ? r.big(room) : r.big(room < 2000n * S ? room : 2000n * S)) : 0n;
      const dst = 1 + r.int(5);
      d.op('ya', add ? 0 : 1, dst, a, t); note(dst);
    } else if (m < 0.55) {
      d.op('yz', a, r.int(3));
      const e = w.events[w.events.length - 1];
      if (e.r[0] === 1 && !e.p) { // and back, in one of the forms
        const ns = yAbs(e.r[1]);
        const s = ['secs_since_epoch', 'num', String(ns / S)], n = ['nanos_since_epoch', 'num', String(ns % S)];
        const i = 6 + r.int(2);
        d.op('yx', i, how(r.pick([{ form: 'map', e: [s, n] }, { form: 'map', e: [n, s] }, { form: 'seq', e: [s, n] }])));
        note(i);
        if (y.has(i)) d.op('yc', i, a);
      }
    } else {
      const k = r.next();
      let e, form = r.p(0.7) ? 'map' : 'seq';
      if (k < 0.3) e = [sec(), nano()];
      else if (k < 0.45) e = r.pick([[sec()], [nano()], []]);
      else if (k < 0.6) e = r.pick([[sec(), sec(), nano()], [sec(), nano(), nano()], [nano(), sec(), sec()], [sec(), sec()], [nano(), nano()]]);
      else if (k < 0.75) { const u = [r.pick(['secs', 'nanos', 'x', '', '\u00ff\u00fe', 'secs_since_epoc', 'nanos_since_epochs', 'SECS_SINCE_EPOCH']), 'num', '1']; e = r.pick([[sec(), nano(), u], [u, sec(), nano()], [u], [sec(), u]]); form = 'map'; }
      else if (k < 0.88) { e = [sec(), nano()]; e[r.int(2)] = [e[0][0], 'num', num(U64)]; e[0][0] = 'secs_since_epoch'; e[1] = [e[1][0] === 'secs_since_epoch' ? 'nanos_since_epoch' : e[1][0], 'num', e[1][2]]; }
      else { e = [sec(), nano()]; const i = r.int(2); e[i] = [e[i][0], r.pick(['str', 'neg', 'float', 'null']), '']; e[i][2] = { str: '1', neg: '-1', float: '1.5', null: 'null' }[e[i][1]]; }
      if (r.p(0.3) && e.length === 2) e = [e[1], e[0]];
      if (form === 'seq') e = e.map((x) => x);
      const i = 8;
      d.op('yx', i, how({ form, e }));
      const ev = w.events[w.events.length - 1];
      if (ev.r.length && !ev.p && yAbs(ev.r[1]) <= range) note(i); else y.delete(i);
      if (ev.r.length && !ev.p && yAbs(ev.r[1]) > range) y.delete(8);
    }
  });
} };

function generate(dirs, profile, seed, k) {
  const r = new Rng((seed * 1000003 + k * 7919 + hash(profile)) >>> 0);
  const pr = P[profile];
  if (!pr) throw new Error('runner: no profile ' + profile);
  for (let i = 0; i < 5; i++) r.next();
  const cfg = { min: r.pick([1, 1, 4]), quick: r.p(0.2), date: 1700000000000 + r.int(1e9), tu: !!pr.o.tu, hold: !!pr.o.hold };
  // a library with the test clock behaves like the other while it is not used
  if (!cfg.tu && r.p(0.25)) cfg.tu = true;
  if (profile === 'now' && r.p(0.5)) cfg.tu = false;
  const w = new World(cfg.tu ? dirs.tu : dirs.prod, cfg);
  const d = new Driver(w, r, Object.assign({}, pr.o));
  if (r.p(0.2) && !cfg.quick) d.o.early = r.pick([0.2, 0.6, 1]);
  if (r.p(0.5) && !['instant', 'system', 'serde'].includes(profile)) {
    try { d.op('host', r.p(0.8) ? r.big(10n * S) : dur.far(r)); } catch (x) { if (!(x instanceof Stop)) throw x; }
  }
  let note = '';
  try { pr.run(d); } catch (x) { if (x instanceof Stop) note = x.message; else throw x; }
  return { w, cfg, note };
}
function hash(s) { let h = 7; for (const c of s) h = (h * 31 + c.charCodeAt(0)) >>> 0; return h; }

module.exports = { generate, P, Driver, Rng };
