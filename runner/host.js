'use strict';
// A mocked JavaScript host (clock, date, timeouts) around one fresh instance
// of the compiled library, and the log of what is observable from outside.
// Nothing here judges anything: the log goes to TLC (spec/Trace.tla).
const fs = require('fs');
const path = require('path');

const cache = new Map();
function load(dir) {
  let c = cache.get(dir);
  if (!c) {
    const src = fs.readFileSync(path.join(dir, 'wtharness.js'), 'utf8');
    const mod = new WebAssembly.Module(fs.readFileSync(path.join(dir, 'wtharness_bg.wasm')));
    const factory = new Function('globalThis', 'global', 'self', 'window', 'require', 'module',
      'exports', '__dirname', 'WebAssembly', 'Date', 'performance', 'setTimeout', 'clearTimeout', src);
    c = { mod, factory };
    cache.set(dir, c);
  }
  return c;
}

const E9 = 1000000000n;
// BigInt nanoseconds -> limbs of the specification
function limbs(ns) {
  const s = ns / E9;
  return [Number(s / (E9 * E9)), Number((s / E9) % E9), Number(s % E9), Number(ns % E9)];
}
const secs = (ns) => ns / E9;
const nanos = (ns) => Number(ns % E9);
const ofPair = (r, i = 0) => BigInt(r[i]) * E9 + BigInt(r[i + 1]);

class Stop extends Error {}

class World {
  // cfg: { min: least delay of the host in ms, dir: compiled library }
  constructor(dir, cfg) {
    this.cfg = cfg;
    this.H = 0n;                  // host clock, ns
    this.dateMs = cfg.date || 0;  // host date, integer ms
    this.pend = [];               // armed callbacks {id, due, fn}
    this.nextCb = 1;
    this.arms = [];
    this.events = [];
    this.ops = [];
    this.dead = false;            // a panic happened: the trace ends
    this.sl = new Map(); this.iv = new Map(); this.to = new Map(); this.q = new Map();
    this.react = new Map();
    this.elapsed = new Set();
    this.wokenNow = [];
    this.instantiate(dir);
    this.paused = false;
    this.lib = 0n;
    const e = { o: 'init', a: [], r: [], p: 0, wk: [], el: [], arm: [], rx: [] };
    try {
      this.api.init();
      this.lib = ofPair(this.api.now());
    } catch (x) { // not even the clock can be read
      e.p = 1; e.msg = String(x.message).slice(0, 200);
      this.dead = true;
    }
    this.push(e);
  }

  instantiate(dir) {
    const { mod, factory } = load(dir);
    const self = this;
    const g = {};
    g.performance = { now: () => self.perf() };
    g.setTimeout = (fn, delay, ...rest) => self.setTimeout(fn, delay);
    g.clearTimeout = (h) => { self.pend = self.pend.filter((c) => c.id !== h); self.disarmed.push(h); };
    this.disarmed = [];
    class MDate extends Date { static now() { return self.dateMs; } }
    g.Date = MDate;
    g.globalThis = g; g.self = g; g.window = g; g.global = g;
    const wa = {
      Module: function () { return mod; },
      Instance: function (m, imp) { return new WebAssembly.Instance(m, imp); },
    };
    const m = { exports: {} };
    const req = () => ({ readFileSync: () => null });
    factory(g, g, g, g, req, m, m.exports, '/', wa, MDate, g.performance, g.setTimeout, g.clearTimeout);
    this.api = m.exports;
  }

  perf() { return Number(this.H) / 1e6; }

  setTimeout(fn, delay) {
    const d = delay === undefined ? 0 : Number(delay);
    const ok = Number.isInteger(d) && d >= 0 && d <= 2147483647;
    // a quick host runs a callback asked for at once a few microseconds later
    const ms = ok ? d : 1;
    const wait = this.cfg.quick && ms === 0 ? 60000n : BigInt(Math.max(this.cfg.min, ms)) * 1000000n;
    const c = { id: this.nextCb++, due: this.H + wait, long: wait > 1000000n, fn };
    this.pend.push(c);
    this.arms.push([c.id, ok ? d : -1, limbs(c.due)]);
    return c.id;
  }

  push(e) {
    e.now = limbs(this.lib);
    e.host = limbs(this.H);
    this.events.push(e);
  }

  // one observed step. light: no timer can be involved (values only)
  step(o, a, fn, more, light) {
    if (this.dead) throw new Stop('dead');
    const e = { o, a, r: [], p: 0, wk: [], el: [], arm: [], rx: [] };
    this.arms = []; this.wokenNow = []; this.disarmed = [];
    let raw;
    try {
      raw = fn();
      if (!light) this.observe(e);
      if (more) more(e, raw);
    } catch (x) {
      if (x instanceof Stop || /^runner:/.test(x.message)) throw x;
      e.p = 1; e.r = []; e.wk = []; e.el = []; e.arm = []; e.rx = []; delete e.dis;
      let msg = '';
      try { msg = this.api.last_panic(); } catch (y) { /* */ }
      e.msg = String(msg || x.message).slice(0, 200);
      if (!light) this.dead = true;
      this.push(e);
      return { e, raw: undefined };
    }
    this.push(e);
    if (this.events.length > 5000) throw new Stop('too long');
    return { e, raw };
  }

  observe(e) {
    const lib = ofPair(this.api.now());
    this.lib = lib;
    e.wk = Array.from(this.api.take_wakes());
    for (const w of e.wk) {
      const x = this.react.get(w);
      if (x) {
        this.react.delete(w);
        const drop = this.sl.delete(x.drop) ? x.drop : 0;
        let dl = 0n;
        if (x.fresh) {
          dl = ofPair(this.api.sleep_deadline(x.fresh));
          this.sl.set(x.fresh, { id: x.fresh, dl, wk: 0 });
        }
        const o = this.sl.get(x.rst);
        if (o) o.dl = lib + x.dur;
        e.rx.push([w, drop, x.fresh, limbs(x.dur), limbs(dl), o ? x.rst : 0]);
      }
    }
    const rel = this.api.take_released();
    for (let i = 0; i < rel.length; i += 2) {
      this.sl.delete(rel[i + 1]);
      e.rx.push([rel[i], rel[i + 1], 0, limbs(0n), limbs(0n), 0]);
    }
    e.el = Array.from(this.api.elapsed_ids());
    this.elapsed = new Set(e.el);
    this.wokenNow = e.wk;
    e.arm = this.arms;
    if (this.cfg.hold) e.hw = Array.from(this.api.held());
    if (this.disarmed.length) e.dis = this.disarmed;
  }

  // ---- host
  host(t) {
    if (t < this.H) t = this.H;
    this.H = t;
    this.step('host', [], () => {});
  }
  date(ms) { this.dateMs = ms; }
  cb(id, t) {
    const i = this.pend.findIndex((c) => c.id === id);
    if (i < 0) throw new Error('runner: no callback ' + id);
    const c = this.pend.splice(i, 1)[0];
    if (t === undefined) t = c.due;
    if (t > this.H) this.H = t;      // the host runs it at t, late or not
    this.step('cb', [id], () => { c.fn(); });
  }
  due() {
    let b = null;
    for (const c of this.pend) if (c.due <= this.H && (!b || c.due < b.due || (c.due === b.due && c.id < b.id))) b = c;
    return b;
  }
  nextDue() {
    let b = null;
    for (const c of this.pend) if (!b || c.due < b.due || (c.due === b.due && c.id < b.id)) b = c;
    return b;
  }

  // ---- operations, by name: see table below
  op(o) {
    this.ops.push(o.map((x) => (typeof x === 'bigint' ? 'n' + x : x)));
    return OPS[o[0]].call(this, ...o.slice(1));
  }
}

const L = limbs;
const OPS = {
  host(t) { this.host(t); },
  cb(id, t) { this.cb(id, t); },
  date(ms) { this.date(ms); },
  pa() { this.step('pa', [], () => this.api.pause()); this.paused = true; },
  re() { this.step('re', [], () => this.api.resume()); this.paused = false; },
  ad(d) {
    this.step('ad', [L(d)], () => this.api.advance(secs(d), nanos(d)),
      (e, r) => { e.r = [r ? 1 : 0]; });
  },
  react(wk, drop, fresh, dur, rst = 0) { this.react.set(wk, { drop, fresh, dur, rst }); this.api.react(wk, drop, fresh, secs(dur), nanos(dur), rst); },
  own(wk, id) { this.api.own(wk, id); },
  // sleeps
  sn(id, d) {
    this.step('sn', [id, L(d)], () => this.api.sleep_new(id, secs(d), nanos(d)), (e, r) => {
      const dl = ofPair(r); e.r = [L(dl)]; this.sl.set(id, { id, dl, wk: 0 });
    });
  },
  su(id, t) {
    this.step('su', [id, L(t)], () => this.api.sleep_until_(id, secs(t), nanos(t)), (e, r) => {
      const dl = ofPair(r); e.r = [L(dl)]; this.sl.set(id, { id, dl, wk: 0 });
    });
  },
  sp(id, wk) {
    return this.step('sp', [id, wk], () => this.api.sleep_poll(id, wk), (e, r) => {
      e.r = [r ? 1 : 0]; const s = this.sl.get(id); if (s) s.wk = r ? 0 : wk;
    }).raw;
  },
  sr(id, t) {
    this.step('sr', [id, L(t)], () => this.api.sleep_reset(id, secs(t), nanos(t)), (e, r) => {
      const dl = ofPair(r); e.r = [L(dl)]; this.sl.get(id).dl = dl;
    });
  },
  sb(id, n, t) {
    this.step('sb', [id, L(t), n], () => this.api.sleep_reset_burst(id, n, secs(t), nanos(t)), (e, r) => {
      const dl = ofPair(r); e.r = [L(dl)]; this.sl.get(id).dl = dl;
    });
  },
  sd(id) { this.sl.delete(id); this.step('sd', [id], () => this.api.sleep_drop(id)); },
  // intervals
  in(id, per) {
    const now = this.lib;
    this.step('in', [id, L(per)], () => this.api.interval_new(id, secs(per), nanos(per)), () => {
      this.iv.set(id, { id, dl: now, per, beh: 0, wk: 0 });
    });
  },
  ia(id, at, per) {
    this.step('ia', [id, L(at), L(per)], () => this.api.interval_at_(id, secs(at), nanos(at), secs(per), nanos(per)), () => {
      this.iv.set(id, { id, dl: at, per, beh: 0, wk: 0 });
    });
  },
  ip(id, wk, via) {
    return this.step('ip', [id, wk, via], () => this.api.interval_poll(id, wk, !!via), (e, r) => {
      const v = this.iv.get(id);
      e.nx = [0, 0, 0, 0]; e.kb = [];
      if (r.length) {
        const t = ofPair(r);
        e.r = [L(t)];
        // witness of "first instant later than now a whole number of periods after"
        const now = this.lib;
        const k = now >= t ? (now - t) / v.per + 1n : 1n;
        const nx = t + k * v.per;
        e.nx = L(nx);
        e.kb = k.toString(2).split('').map(Number);
        if (now > t + 5000000n) v.dl = v.beh === 0 ? t + v.per : v.beh === 1 ? now + v.per : nx;
        else v.dl = t + v.per;
        v.wk = 0;
      } else v.wk = wk;
    }).raw;
  },
  ir(id) { this.step('ir', [id], () => this.api.interval_reset(id), () => { const v = this.iv.get(id); v.dl = this.lib + v.per; }); },
  ib(id, b) { this.step('ib', [id, b], () => this.api.interval_behavior(id, b), () => { this.iv.get(id).beh = b; }); },
  ii(id) {
    this.step('ii', [id], () => this.api.interval_info(id), (e, r) => { e.r = [Number(r[0]), L(ofPair(r, 1))]; });
  },
  iD(id) { this.iv.delete(id); this.step('iD', [id], () => this.api.interval_drop(id)); },
  // timeouts
  tn(id, form, t, kind, it) {
    const now = this.lib;
    this.step('tn', [id, form, L(t), kind, L(it)],
      () => this.api.timeout_new(id, form, secs(t), nanos(t), kind, secs(it), nanos(it)), () => {
        this.to.set(id, { id, dl: form ? t : now + t, idl: kind ? now + it : null, kind, wk: 0, done: false, ready: false });
      });
  },
  tp(id, wk) {
    return this.step('tp', [id, wk], () => this.api.timeout_poll(id, wk), (e, r) => {
      e.r = Array.from(r, Number);
      const t = this.to.get(id);
      if (e.r[0]) t.done = true; else t.wk = wk;
    }).raw;
  },
  tc(id, v) { this.step('tc', [id, v], () => this.api.inner_complete(id, BigInt(v)), () => { this.to.get(id).ready = true; }); },
  td(id) { this.to.delete(id); this.step('td', [id], () => this.api.timeout_drop(id), (e, r) => { e.r = [r]; }); },
  ti(id, wk) {
    this.to.delete(id);
    this.step('ti', [id, wk], () => this.api.timeout_into_inner(id, wk), (e, r) => { e.r = Array.from(r, Number); });
  },
  // queues
  qn(id, form, cap) {
    this.step('qn', [id, form, cap], () => this.api.q_new(id, form, cap), (e) => {
      this.q.set(id, { id, items: new Map(), start: this.lib, hz: this.lib, wk: 0, parked: false, old: [] });
      this.qinfo(e, id);
    });
  },
  qi(id, form, val, t) {
    const at = form ? t : this.lib + t;
    return this.step('qi', [id, form, val, L(t)], () => this.api.q_insert(id, form, val, secs(t), nanos(t)), (e, r) => {
      e.r = [Number(r)];
      this.q.get(id).items.set(Number(r), { val, at });
      this.qinfo(e, id);
    }).raw;
  },
  qr(id, form, key, t) {
    const at = form ? t : this.lib + t;
    this.step('qr', [id, form, key, L(t)], () => this.api.q_reset(id, form, key, secs(t), nanos(t)), (e) => {
      const it = this.q.get(id).items.get(key); if (it) it.at = at;
      this.qinfo(e, id);
    });
  },
  qm(id, key) {
    return this.step('qm', [id, key], () => this.api.q_remove(id, key), (e, r) => {
      this.qexp(id, e, r); this.qinfo(e, id);
    }).raw;
  },
  qt(id, key) {
    return this.step('qt', [id, key], () => this.api.q_try_remove(id, key), (e, r) => {
      this.qexp(id, e, r); this.qinfo(e, id);
    }).raw;
  },
  qp(id, wk, stream) {
    return this.step('qp', [id, wk, stream], () => this.api.q_poll(id, wk, !!stream), (e, r) => {
      const q = this.q.get(id);
      this.qexp(id, e, r);
      q.parked = e.r[0] === 2; q.wk = wk;
      if (e.r[0] === 1) { const t = ofPair(r, 3); if (t > q.hz) q.hz = t; }
      this.qinfo(e, id);
    }).raw;
  },
  qc(id) {
    this.step('qc', [id], () => this.api.q_clear(id), (e) => {
      const q = this.q.get(id); for (const k of q.items.keys()) q.old.push(k); q.items.clear(); q.hz = q.start; this.qinfo(e, id);
    });
  },
  qk(id) { this.step('qk', [id], () => this.api.q_compact(id), (e) => this.qinfo(e, id)); },
  qs(id) { this.step('qs', [id], () => this.api.q_shrink(id), (e) => this.qinfo(e, id)); },
  qv(id, n) { this.step('qv', [id, n], () => this.api.q_reserve(id, n), (e) => this.qinfo(e, id)); },
  qd(id) {
    this.q.delete(id);
    this.step('qd', [id], () => this.api.q_drop(id), (e) => { e.dr = Array.from(this.api.take_drops()); e.qi = [0, 1, 0]; });
  },
  // short lives, and what they leave
  ch(kind, n, id, d, wk) { this.step('ch', [kind, n, id, L(d), wk], () => this.api.churn(kind, n, id, secs(d), nanos(d), wk)); },
  mm() { this.step('mm', [], () => this.api.live_bytes(), (e, r) => { e.r = [r]; }); },
  // instants
  xn(dst) { this.vstep('xn', [dst], () => this.api.i_now(dst), opt); },
  xs(dst, t) { this.vstep('xs', [dst, L(t)], () => this.api.i_set(dst, secs(t), nanos(t)), opt); },
  xa(op, dst, a, d) { this.vstep('xa', [op, dst, a, L(d)], () => this.api.i_arith(op, dst, a, secs(d), nanos(d)), opt); },
  xd(op, a, b) { this.vstep('xd', [op, a, b], () => this.api.i_diff(op, a, b), opt); },
  xc(a, b) { this.vstep('xc', [a, b], () => this.api.i_cmp(a, b), (r) => Array.from(r)); },
  xe(a) { this.vstep('xe', [a], () => this.api.i_elapsed(a), opt); },
  // system times
  yn(dst) { this.vstep('yn', [dst], () => this.api.s_now(dst), sig); },
  ye(dst) { this.vstep('ye', [dst], () => this.api.s_epoch(dst), sig); },
  ya(op, dst, a, d) { this.vstep('ya', [op, dst, a, L(d)], () => this.api.s_arith(op, dst, a, secs(d), nanos(d)), sig); },
  yd(a, b) { this.vstep('yd', [a, b], () => this.api.s_diff(a, b), sig); },
  yl(a) { this.vstep('yl', [a], () => this.api.s_elapsed(a), sig); },
  yc(a, b) { this.vstep('yc', [a, b], () => this.api.s_cmp(a, b), (r) => Array.from(r)); },
  // via: see the harness
  yz(a, via) {
    this.vstep('yz', [a, via || 0], () => this.api.s_ser(a, via || 0), (s) => {
      if (s === '') return [0];
      const m = /^\{"(\w+)":(\d+),"(\w+)":(\d+)\}$/.exec(s);
      if (!m) return [2, s];
      const o = { [m[1]]: m[2], [m[3]]: m[4] };
      if (Object.keys(o).sort().join() !== 'nanos_since_epoch,secs_since_epoch') return [2, s];
      return [1, L(BigInt(o.secs_since_epoch) * E9 + BigInt(o.nanos_since_epoch)), BigInt(o.nanos_since_epoch) < E9 ? 1 : 0];
    });
  },
  // doc: {form: 'map'|'seq', via, e: [[name, kind, value]...]}; the text is derived from it
  yx(dst, doc) {
    const lim = (v) => { const n = BigInt(v); return [Number(n / (E9 * E9)), Number((n / E9) % E9), Number(n % E9)]; };
    const a = [dst, doc.form, doc.e.map(([k, kind, v]) => [k, kind, kind === 'num' ? lim(v) : [0, 0, 0]]), doc.via || 0];
    this.vstep('yx', a, () => this.api.s_de(dst, doctext(doc), doc.via || 0), sig);
  },
};

function doctext(doc) {
  const val = ([, kind, v]) => (kind === 'num' ? String(v) : kind === 'str' ? JSON.stringify(String(v)) : String(v));
  if (doc.via) return '[' + doc.e.map((x) => '[' + JSON.stringify(x[0]) + ',' + val(x) + ']').join(',') + ']';
  if (doc.form === 'map') return '{' + doc.e.map((x) => JSON.stringify(x[0]) + ':' + val(x)).join(',') + '}';
  return '[' + doc.e.map(val).join(',') + ']';
}
const opt = (r) => (r.length ? [L(ofPair(r))] : []);
const sig = (r) => (r.length ? [Number(r[0]), L(ofPair(r, 1))] : []);

World.prototype.qinfo = function (e, id) {
  e.qi = Array.from(this.api.q_info(id));
  e.dr = Array.from(this.api.take_drops());
};
World.prototype.qexp = function (id, e, r) {
  const k = Number(r[0]);
  if (k === 1) {
    const q = this.q.get(id);
    e.r = [1, Number(r[1]), Number(r[2]), L(ofPair(r, 3))];
    q.items.delete(Number(r[1])); q.old.push(Number(r[1]));
  } else e.r = [k];
};
World.prototype.vstep = function (o, a, fn, conv) {
  const dateNs = BigInt(this.dateMs < 0 ? -this.dateMs : this.dateMs) * 1000000n;
  return this.step(o, a, fn, (e, r) => { e.r = conv(r); e.dt = [this.dateMs < 0 ? 1 : 0, L(dateNs)]; }, true);
};
const parseOp = (o) => o.map((x) => (typeof x === 'string' && /^n-?\d+$/.test(x) ? BigInt(x.slice(1)) : x));

module.exports = { World, Stop, limbs, parseOp, OPS };
