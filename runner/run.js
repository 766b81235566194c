'use strict';
// run.js gen OUT PROD TU SEED SHARD SHARDS SPEC...   SPEC = profile:count
// run.js replay OUT PROD TU FILE                     FILE = {cfg, ops} or one per line
// run.js beh OUT PROD TU FILE                        one {cfg, ops} per line (schedules of the models)
// run.js walk OUT PROD TU FILE SHARD SHARDS      one schedule of the design per line
// Writes one execution per line; before each, its name, so that the parent
// can tell which one hung.
const fs = require('fs');
const { World, Stop, parseOp } = require('./host.js');
const { generate } = require('./gen.js');
const { walk } = require('./walk.js');

const [, , mode, out, prod, tu, ...rest] = process.argv;
const fd = fs.openSync(out, 'w');
const fdo = fs.openSync(out + '.ops', 'w');
let total = 0;
const fid = [];               // steps that went as the design says, and not
function emit(id, w, cfg) {
  for (const e of w.events) delete e.msg0;
  fs.writeSync(fd, JSON.stringify({ id, min: cfg.min, ev: w.events }) + '\n');
  fs.writeSync(fdo, JSON.stringify({ id, cfg, ops: w.ops }) + '\n');
  total += w.events.length;
}
function start(id) { fs.writeFileSync(out + '.cur', id); }

if (mode === 'gen') {
  const [seed, shard, shards, ...specs] = rest;
  for (const sp of specs) {
    const [profile, count] = sp.split(':');
    for (let k = Number(shard); k < Number(count); k += Number(shards)) {
      const id = profile + '-' + k;
      start(id);
      const { w, cfg } = generate({ prod, tu }, profile, Number(seed), k);
      emit(id, w, cfg);
    }
  }
} else if (mode === 'one' || mode === 'onebeh') {
  // one execution, each step logged before it is taken: for finding where it hangs
  const op = fs.openSync(out + '.op', 'w'), ev = fs.openSync(out + '.ev', 'w');
  const log = (f, x) => fs.writeSync(f, JSON.stringify(x, (k, v) => (typeof v === 'bigint' ? 'n' + v : v)) + '\n');
  const push0 = World.prototype.push, op0 = World.prototype.op;
  let first = true;
  World.prototype.push = function (e) { push0.call(this, e); log(ev, e); };
  World.prototype.op = function (o) {
    if (first) { first = false; log(op, { cfg: this.cfg }); }
    log(op, o);
    return op0.call(this, o);
  };
  start('one');
  let r;
  if (mode === 'one') {
    const [seed, id] = rest;
    const m = /^(.*)-(\d+)$/.exec(id);
    r = generate({ prod, tu }, m[1], Number(seed), Number(m[2]));
    emit(id, r.w, r.cfg);
  } else {
    const lines = fs.readFileSync(rest[0], 'utf8').split('\n').filter(Boolean);
    lines.forEach((l, k) => {
      const sc = JSON.parse(l);
      if ((sc.id || 'replay-' + k) !== rest[1]) return;
      const w = new World(sc.cfg.tu ? tu : prod, sc.cfg);
      try {
        if (sc.sched) walk(w, sc); else for (const o of sc.ops) w.op(parseOp(o));
      } catch (x) { if (!(x instanceof Stop)) throw x; }
      emit(rest[1], w, sc.cfg);
    });
  }
} else {
  const lines = fs.readFileSync(rest[0], 'utf8').split('\n').filter(Boolean);
  const shard = Number(rest[1] || 0), shards = Number(rest[2] || 1);
  for (let k = shard; k < lines.length; k += shards) {
    const sc = JSON.parse(lines[k]);
    const id = sc.id || 'replay-' + k;
    start(id);
    const w = new World(sc.cfg.tu ? tu : prod, sc.cfg);
    try {
      if (sc.sched) fid.push(...walk(w, sc)); else for (const o of sc.ops) w.op(parseOp(o));
    } catch (x) { if (!(x instanceof Stop)) throw x; }
    emit(id, w, sc.cfg);
  }
}
fs.writeFileSync(out + '.cur', '');
const odd = fid.filter((x) => x.diff);
console.log(JSON.stringify({ events: total, designed: fid.length, asdesigned: fid.length - odd.length, odd: odd.slice(0, 3) }));
