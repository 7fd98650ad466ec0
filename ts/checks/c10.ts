import { check, Ctx, settle } from "../lib/core";
import { cache } from "repo/resolver/cache";

type R = { start: number; end: number };
const show = (rs: R[]) => rs.map((r) => `${r.start}-${r.end}`).join(",");

function file(n: number): ArrayBuffer {
  const b = new Uint8Array(n);
  for (let i = 0; i < n; i++) b[i] = 0x10 + i;
  return b.buffer;
}

function direct(f: ArrayBuffer, r: R): string | null {
  if (r.start >= f.byteLength) return null; // refused
  return Buffer.from(f.slice(r.start, r.end + 1)).toString("hex");
}

// judge compares a result with what fetching directly returns
function judge(f: ArrayBuffer, rs: R[], res: { data: ArrayBuffer; totalLength: number }[]): string | null {
  if (!Array.isArray(res) || res.length !== rs.length) return `${rs.length} ranges requested, ${res && res.length} returned`;
  for (let i = 0; i < rs.length; i++) {
    const want = direct(f, rs[i]);
    if (want === null) return `bytes ${show([rs[i]])} do not exist but are returned`;
    const got = res[i] && Buffer.from(res[i].data).toString("hex");
    if (got !== want) return `bytes ${show([rs[i]])} are ${got}, expected ${want}`;
    if (res[i].totalLength !== f.byteLength) return `total length ${res[i].totalLength}, expected ${f.byteLength}`;
  }
  return null;
}

function scribble(res: { data: ArrayBuffer }[]) {
  for (const r of res) new Uint8Array(r.data).fill(0xee);
}

// ---- one request after the other, every fetch failing in turn ---------------

async function sequence(c: Ctx, f: ArrayBuffer, reqs: R[][], failing: number, brief?: string) {
  let calls = 0;
  let failed = 0;
  const r = cache(async (ranges) => {
    const k = calls++;
    c.trans();
    if (k === failing) {
      failed++;
      throw new Error("network");
    }
    return ranges.map(({ start, end }) => {
      if (start >= f.byteLength) throw new Error("416");
      return { data: f.slice(start, end + 1), totalLength: f.byteLength };
    });
  });
  for (let i = 0; i < reqs.length; i++) {
    const rs = reqs[i];
    const mayFail = rs.some((x) => direct(f, x) === null);
    const before = failed;
    const cs = () => ({ requests: brief ?? reqs.map(show), failing, at: i, size: f.byteLength });
    let res: any;
    try {
      res = await r(rs.map((x) => ({ ...x })));
    } catch (e: any) {
      if (failed > before || mayFail) continue;
      c.violate("sequence", cs(), `request ${i} fails (${e.message}) though nothing failed`);
      return calls;
    }
    const bad = judge(f, rs, res);
    if (bad) {
      c.violate("sequence", cs(), `request ${i}: ${bad}`);
      return calls;
    }
    scribble(res);
  }
  return calls;
}

async function sequences(c: Ctx) {
  const f = file(4);
  const ranges: R[] = [];
  for (let s = 0; s <= 5; s++) for (let e = s; e <= 5; e++) ranges.push({ start: s, end: e });
  const depth = c.bound(3, 4);
  const rec = async (pre: R[][]) => {
    if (c.tooMany() || c.expired("sequences")) return;
    if (pre.length > 0) {
      c.at("sequence " + pre.map(show).join(" "));
      let calls = await sequence(c, f, pre, -1);
      c.trace();
      for (let k = 0; k < Math.min(calls, 3); k++) await sequence(c, f, pre, k);
      c.state(pre.map(show).join(" "));
    }
    if (pre.length === depth) return;
    for (const r of ranges) {
      if (pre.length === 1 && !c.mine()) continue;
      await rec([...pre, [r]]);
    }
  };
  await rec([]);
  // requests for several ranges, before and after other ones
  for (const a of ranges)
    for (const b of ranges) {
      if (!c.mine()) continue;
      if (c.tooMany()) return;
      for (const x of ranges) {
        c.at("pairs " + show([a, b]) + " " + show([x]));
        for (const reqs of [
          [[a, b], [x]],
          [[x], [a, b]],
          [[x], [b], [a, b, x]],
        ]) {
          const calls = await sequence(c, f, reqs, -1);
          c.trace();
          for (let k = 0; k < calls; k++) await sequence(c, f, reqs, k);
          c.state(reqs.map(show).join(" "));
        }
      }
      for (const [x, y] of [
        [a, b],
        [b, a],
        [a, a],
      ])
        await sequence(c, f, [[a, b], [x, y], [y]], -1);
    }
}

// ---- overlapping requests: every order of issuing and answering -------------

type Pending = { ranges: R[]; ok: () => void; fail: () => void; failed: boolean; done: boolean; born: number };

async function schedule(c: Ctx, f: ArrayBuffer, reqs: R[][], choose: (n: number) => number, path: () => string) {
  let clock = 0;
  const pend: Pending[] = [];
  const all: Pending[] = [];
  const r = cache((ranges) => {
    c.trans();
    return new Promise((resolve, reject) => {
      const p: Pending = {
        ranges: ranges.map((x) => ({ ...x })),
        born: clock,
        failed: false,
        done: false,
        ok: () => {
          const bad = ranges.some((x) => x.start >= f.byteLength);
          if (bad) {
            p.failed = true;
            reject(new Error("416"));
          } else resolve(ranges.map(({ start, end }) => ({ data: f.slice(start, end + 1), totalLength: f.byteLength })));
        },
        fail: () => {
          p.failed = true;
          reject(new Error("network"));
        },
      };
      pend.push(p);
      all.push(p);
    });
  });
  const out: { settled: boolean; err?: any; issued: number }[] = [];
  let next = 0;
  let failures = 0;
  const cs = () => ({ requests: reqs.map(show), schedule: path(), size: f.byteLength });
  for (let step = 0; step < 60; step++) {
    // what can happen next: issue the next request, answer or fail a pending fetch
    const acts: (() => void)[] = [];
    if (next < reqs.length) {
      const i = next;
      acts.push(() => {
        next++;
        const o: (typeof out)[number] = { settled: false, issued: clock };
        out.push(o);
        r(reqs[i].map((x) => ({ ...x }))).then(
          (res) => {
            o.settled = true;
            const bad = judge(f, reqs[i], res);
            if (bad) c.violate("schedule", cs(), `request ${i}: ${bad}`);
            else scribble(res);
          },
          (e) => {
            o.settled = true;
            o.err = e;
            const mine = all.some((p) => p.failed && p.born >= o.issued && p.ranges.some((a) => reqs[i].some((b) => a.start === b.start && a.end === b.end)));
            const refused = reqs[i].some((x) => x.start >= f.byteLength);
            if (!mine && !refused) c.violate("schedule-failure", cs(), `request ${i} fails (${e.message}) because of a fetch made for another one`);
          },
        );
      });
    }
    for (const p of pend.slice()) {
      acts.push(() => {
        pend.splice(pend.indexOf(p), 1);
        p.ok();
      });
      if (failures < 1)
        acts.push(() => {
          failures++;
          pend.splice(pend.indexOf(p), 1);
          p.fail();
        });
    }
    if (acts.length === 0) break;
    clock++;
    acts[choose(acts.length)]();
    // let the client go as far as it can
    for (let i = 0; i < 30; i++) await null;
  }
  await settle();
  if (out.length !== reqs.length || out.some((o) => !o.settled)) c.violate("schedule-stuck", cs(), "a request is never answered although every fetch has been");
}

async function schedules(c: Ctx) {
  const f = file(4);
  const rs: R[] = [
    { start: 0, end: 3 },
    { start: 1, end: 2 },
    { start: 2, end: 5 },
    { start: 0, end: 0 },
    { start: 4, end: 4 },
  ];
  const reqMenu: R[][] = [...rs.map((r) => [r]), [rs[0], rs[1]], [rs[1], rs[2]], [rs[3], rs[4]]];
  const n = c.bound(2, 3);
  const lists: R[][][] = [];
  const rec = (pre: R[][]) => {
    if (pre.length >= 2) lists.push(pre);
    if (pre.length === n) return;
    for (const m of reqMenu) rec([...pre, m]);
  };
  rec([]);
  if (n === 2) for (const a of rs.slice(0, 4)) for (const b of rs.slice(0, 4)) for (const d of rs.slice(0, 4)) lists.push([[a], [b], [d]]);
  for (const reqs of lists) {
    if (!c.mine()) continue;
    if (c.tooMany() || c.expired("schedules")) return;
    // depth-first enumeration of all choices
    const stack: number[] = [];
    while (true) {
      let d = 0;
      const widths: number[] = [];
      c.at("schedule " + reqs.map(show).join(" ") + " : " + stack.join(","));
      const made: number[] = [];
      await schedule(
        c,
        f,
        reqs,
        (w) => {
          const k = d < stack.length ? stack[d] : 0;
          widths[d] = w;
          made[d] = k;
          d++;
          return k;
        },
        () => made.join(","),
      );
      c.trace();
      c.add("schedules");
      c.state(reqs.map(show).join(" ") + ":" + made.join(","));
      let i = d - 1;
      while (i >= 0 && made[i] + 1 >= widths[i]) i--;
      if (i < 0) break;
      stack.length = 0;
      stack.push(...made.slice(0, i), made[i] + 1);
      if (c.tooMany()) break;
    }
  }
}

// ---- long histories and requests for many ranges -----------------------------

async function long(c: Ctx) {
  const f = (() => {
    const b = new Uint8Array(3000);
    for (let i = 0; i < b.length; i++) b[i] = (i % 251) ^ (i >> 8);
    return b.buffer;
  })();
  const shapes: [string, (i: number, n: number) => R][] = [
    ["bytes", (i) => ({ start: i, end: i })],
    ["growing", (i) => ({ start: 0, end: i })],
    ["shrinking", (i, n) => ({ start: 0, end: n - i })],
    ["sliding", (i) => ({ start: i, end: i + 10 })],
    ["nested", (i, n) => ({ start: i, end: 2 * n - i })],
    ["backwards", (i, n) => ({ start: 5 * (n - i), end: 5 * (n - i) + 4 })],
    ["at the end", (i) => ({ start: 2999 - (i % 50), end: 3000 + (i % 7) })],
    ["repeating", (i) => ({ start: i % 3, end: 5 + (i % 2) })],
  ];
  const ns = [8, 10, 16, 32, 33, 50, 64, 65, 100, 128, 129, 200, 256, 257, 500, c.bound(501, 1025)];
  for (const n of ns)
    for (const [name, g] of shapes)
      for (const batch of [1, 3, n]) {
        if (!c.mine()) continue;
        if (c.tooMany() || c.expired("long")) return;
        const rs = Array.from({ length: n }, (_, i) => g(i, n)).filter((r) => r.start < 3000 && r.start <= r.end);
        const reqs: R[][] = [];
        for (let i = 0; i < rs.length; i += batch) reqs.push(rs.slice(i, i + batch));
        // and everything once more, in two orders
        const again = [...reqs, ...reqs, ...reqs.slice().reverse(), ...rs.slice(0, 40).map((r) => [{ start: r.start, end: r.start }])];
        c.at(`long ${n} ${name} ${batch}`);
        const calls = await sequence(c, f, again, -1, `${n} ${name} ranges, ${batch} at a time`);
        for (const k of [0, calls >> 1, calls - 1]) await sequence(c, f, again, k, `${n} ${name} ranges, ${batch} at a time`);
        // all at once, answered first or last first
        for (const last of [false, true]) {
          const waiting: (() => void)[] = [];
          const r = cache((q) => new Promise((ok) => waiting.push(() => ok(q.map(({ start, end }) => ({ data: f.slice(start, end + 1), totalLength: 3000 }))))));
          const out = reqs.map((q) => r(q));
          out.forEach((o) => o.catch(() => {}));
          while (waiting.length > 0) {
            (last ? waiting.pop()! : waiting.shift()!)();
            await settle();
          }
          for (let i = 0; i < reqs.length; i++) {
            c.trans();
            let bad: string | null;
            try {
              bad = judge(f, reqs[i], await out[i]);
            } catch (e: any) {
              bad = `fails (${e.message}) though nothing failed`;
            }
            if (bad) {
              c.violate("long-concurrent", { ranges: n, name, batch, last, at: i }, `request ${i}: ${bad}`);
              break;
            }
          }
        }
        c.state(`long ${n} ${name} ${batch}`);
        c.trace();
      }
}

// ---- expected lengths are passed on ------------------------------------------

async function expected(c: Ctx) {
  if (c.shard !== 0) return;
  const f = file(4);
  const mk = () =>
    cache(async (ranges) =>
      ranges.map(({ start, end, expectedLength }) => {
        if (expectedLength !== undefined && expectedLength !== f.byteLength) throw new Error("length");
        return { data: f.slice(start, end + 1), totalLength: f.byteLength };
      }),
    );
  for (const warm of [false, true])
    for (const expectedLength of [4, 5, undefined]) {
      const r = mk();
      if (warm) await r([{ start: 0, end: 3 }]);
      let ok = true;
      try {
        await r([{ start: 1, end: 2, expectedLength }]);
      } catch {
        ok = false;
      }
      c.trans();
      if (ok !== (expectedLength !== 5)) c.violate("expected-length", { warm, expectedLength }, `a request expecting ${expectedLength} bytes in total is ${ok ? "answered" : "refused"}`);
    }
}

async function run(c: Ctx) {
  await sequences(c);
  await c.guard("schedules", null, () => schedules(c));
  await c.guard("long", null, () => long(c));
  await c.guard("expected", null, () => expected(c));
}

check({
  id: "C10",
  run,
  rule: "every sequence of single-range requests up to the depth over all ranges of a 4-byte file (also past its end), every pair of ranges together with every third one, each fetch failing in turn, callers overwriting what they received; overlapping requests with every order of issuing, answering and failing; histories and lists of up to 501 (1025) ranges in systematic shapes, one after the other and all at once",
  assumptions: ["the file does not change", "one failing fetch per history"],
});
