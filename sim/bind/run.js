'use strict';
const fs = require('fs');
const { Worker, isMainThread, workerData, parentPort } = require('worker_threads');
const [base, path] = process.argv.slice(2);
const sim = require(base + '/hext.node');
const { Rule, Html } = sim;
const rules = {}, htmls = {};
const print = (s) => { let b = Buffer.from(s), at = 0; while (at < b.length) at += fs.writeSync(1, b, at); };
const hx = (s) => typeof s === 'string' ? Buffer.from(s, 'utf8').toString('hex') : '?' + typeof s;
function show(v) {
  if (!Array.isArray(v)) return 'V?' + typeof v;
  let o = 'V';
  for (const d of v) {
    if (d === null || typeof d !== 'object' || Array.isArray(d)) { o += '?' + typeof d; continue; }
    const ks = Object.keys(d).map((k) => [Buffer.from(k, 'utf8'), k]).sort((a, b) => Buffer.compare(a[0], b[0]));
    o += '[';
    for (const [b, k] of ks) {
      const x = d[k];
      o += b.toString('hex') + '=' + (Array.isArray(x) ? '(' + x.map((y) => "'" + hx(y)).join(',') + ')' : "'" + hx(x)) + ';';
    }
    o += ']';
  }
  return o;
}
function one(opno, spec, rep, f, la, na, gp, keep) {
  sim.arm(la[0], la[1], na[0], na[1], gp);
  let v, err = '';
  try { v = f(); } catch (e) { err = (e && e.name) || 'unknown'; }
  const [lib, libfired, calls, callfired, gcs] = sim.disarm();
  const res = err ? 'E' + err : keep ? 'V' : show(v);
  print(`O ${opno} ${spec} ${rep} ${libfired + callfired} ${gcs} ${sim.live()} 0 ${res}\n`);
  return [err || !keep ? null : v, lib, calls, err];
}
function operate(opno, faults, keep, store, f) {
  let [v, lib, calls, err] = one(opno, '-', 0, f, [0, 0], [0, 0], -1, keep);
  if (v) store(v);
  if (faults.length) [v, lib, calls, err] = one(opno, '-', 1, f, [0, 0], [0, 0], -1, keep);
  v = null;
  for (const spec of faults) {
    const [body, reps] = spec.split('*');
    let la = [0, 0], na = [0, 0], gp = -1;
    for (const part of body.split('&')) {
      if (part[0] === 'G') { gp = Math.floor(Number(part.slice(2)) * calls / 10000) + 1; continue; }
      const [pos, len] = part.slice(1).split('+');
      const total = part[0] === 'L' ? lib : calls;
      const a = Math.floor(Number(pos) * total / 10000);
      const w = len === 'a' ? [a, 2 ** 40] : [a, a + Number(len)];
      // a Node-API call fails only where no exception is being raised anyway
      if (part[0] === 'L') la = w; else if (!err) na = w;
    }
    for (let rep = 0; rep < Number(reps); ++rep) {
      [v] = one(opno, spec, rep, f, la, na, gp, keep);
      if (v) store(v);
      v = null;
    }
  }
  if (faults.length && !keep) one(opno, '-', 2, f, [0, 0], [0, 0], -1, keep);
}
// Calls that no correct script makes. Each must throw; those marked true may as well work.
function wrong(r, h) {
  return [
    [() => r.extract(null), false], [() => r.extract(5), false], [() => r.extract('<a>'), false], [() => r.extract(r), false],
    [() => r.extract(), false], [() => r.extract(undefined), false], [() => r.extract(h, '1'), false], [() => r.extract(h, -1), true],
    [() => r.extract(h, 1e300), true], [() => r.extract(h, 1.5), true], [() => r.extract(h, null), true], [() => r.extract([h]), false],
    [() => new Rule(null), false], [() => new Rule(), false], [() => new Rule(5), false], [() => new Rule({}), false],
    [() => new Html(null), false], [() => new Html(), false], [() => new Html([]), false], [() => new Rule(h), false],
    [() => Rule.prototype.extract.call(h, h), false], [() => Rule.prototype.extract.call({}, h), false], [() => r.extract({}), false],
    [() => r.extract(Object.create(Html.prototype)), false], [() => Rule.prototype.extract.call(Object.create(Rule.prototype), h), false], [() => Rule('<a />'), false], [() => Html('<a>'), false],
    [() => r.extract(new Proxy(h, {})), false], [() => r.extract(h, NaN), true], [() => r.extract(h, Infinity), true], [() => r.extract(h, 1n), true],
    [() => r.extract(h, { valueOf() { throw new Error('v'); } }), false], [() => r.extract(new Date()), false], [() => r.extract(Symbol('s')), false], [() => r.extract(new (class extends Html {})('<a>')), true],
    [() => new Rule({ toString() { throw new Error('s'); } }), false], [() => r.extract(new Map()), false], [() => Rule.prototype.extract.call(undefined, h), false], [() => r.extract(new Error('x')), false],
  ];
}
function misuse(opno, v, r, h) {
  const l = wrong(r, h);
  const [f, may] = l[v % l.length];
  let res;
  try { f(); res = may ? 'L' : 'Vaccepted'; } catch (e) { res = 'E' + ((e && e.name) || 'unknown'); }
  print(`O ${opno} - 0 0 0 0 0 ${res}\n`);
}
const bytes = (w) => Buffer.from(w.slice(1), 'hex').toString('utf8');
// A worker is an environment of its own in the same process. It and the main thread take turns.
const workers = new Set();
function inWorker() {
  const [opno, tpl, doc, budget, hold, ...faults] = workerData;
  try {
    const t = bytes(tpl), h = new Html(bytes(doc)), r = new Rule(t);
    operate(opno, faults, false, null, () => r.extract(h, Number(budget)));
    rules.r = r;
    htmls.h = h;
  } catch (e) { print(`O ${opno} - 0 0 0 0 0 E${(e && e.name) || 'unknown'}\n`); }
  // what the runtime has put off is done before the main thread goes on
  setImmediate(() => setImmediate(() => {
    if (hold === '1') parentPort.on('message', () => {});        // keeps its objects until it is terminated
    parentPort.postMessage('done');
  }));
}
function startWorker(data) {
  return new Promise((done) => {
    const w = new Worker(__filename, { argv: [base, path], workerData: data, stdout: false, stderr: false });
    const gone = new Promise((r) => w.on('exit', r));
    w.gone = gone;
    w.on('error', () => {});
    w.on('message', () => { if (data[4] === '1') { workers.add(w); done(); } else gone.then(done); });
    gone.then(done);
  });
}
async function endWorkers() {
  for (const w of workers) { w.terminate(); await w.gone; }
  workers.clear();
}
async function main() {
  for (const line of fs.readFileSync(path, 'latin1').split('\n')) {
    const w = line.trim().split(/\s+/);
    switch (w[0]) {
      case 'S': sim.fill(Number(w[1]), Number(w[2])); break;
      case 'R': { const t = bytes(w[3]); operate(w[1], w.slice(4), true, (v) => { rules[w[2]] = v; }, () => new Rule(t)); break; }
      case 'H': htmls[w[2]] = new Html(bytes(w[3])); break;
      case 'E': { const r = rules[w[2]], h = htmls[w[3]], n = Number(w[4]); operate(w[1], w.slice(5), false, null, () => r.extract(h, n)); break; }
      case 'K': { const r = rules[w[2]]; operate(w[1], [], false, null, () => r.extract(new Html(bytes(w[3])), Number(w[4]))); break; }
      case 'X': misuse(w[1], Number(w[2]), rules[w[3]], htmls[w[4]]); break;
      case 'W': await startWorker(w.slice(1)); break;
      case 'T': await endWorkers(); break;
      case 'D': delete (w[2] === 'r' ? rules : htmls)[w[3]]; break;
      case 'G': global.gc(); break;
    }
  }
  await endWorkers();
  global.gc();
  print('END\n');
}
if (isMainThread) main(); else inWorker();
