import { check, bundle, Ctx } from "../lib/core";
import { decodeUvarint, encodeUvarint } from "repo/util/uvarint";

const MAX = 2n ** 53n;

function hex(b: Uint8Array) {
  return Buffer.from(b).toString("hex");
}

async function run(c: Ctx) {
  for (const g of bundle()) {
    const view = new DataView(g.data);
    const all = new Uint8Array(g.data);
    let pos = 0;
    if (g.kind === "values") {
      while (pos < all.length && !c.tooMany()) {
        const v = view.getBigUint64(pos, true);
        const size = all[pos + 8];
        const n = all[pos + 9];
        const bytes = all.slice(pos + 10, pos + 10 + n);
        pos += 10 + n;
        if (!c.mine()) continue;
        const cs = { value: v, bytes: hex(bytes) };
        if (size !== n) c.violate("size", cs, `the indexer predicts ${size} bytes for ${v} and writes ${n}`);
        c.state("v" + v);
        if (v > MAX) continue;
        await c.guard("codec", cs, () => {
          // alone and followed by other data
          for (const tail of [[], [0], [0x80], [0xff, 0xff], [1, 2, 3]]) {
            const buf = new Uint8Array([...bytes, ...tail]).buffer;
            const d = decodeUvarint(buf);
            c.trans();
            if (BigInt(d.value) !== v || d.bytesRead !== n) {
              c.violate("decode", cs, `${v} is read as ${d.value} using ${d.bytesRead} of ${n} bytes`);
            }
          }
          const e = new Uint8Array(encodeUvarint(Number(v)));
          c.trans();
          c.trace();
          if (hex(e) !== hex(bytes)) c.violate("encode", cs, `${v} is written as ${hex(e)}, the indexer writes ${hex(bytes)}`);
          // cut short
          for (let k = 0; k < n; k++) {
            const d = decodeUvarint(bytes.slice(0, k).buffer);
            c.trans();
            if (d.bytesRead > 0) c.violate("truncated", { ...cs, kept: k }, `the first ${k} of ${n} bytes are read as ${d.value}`);
          }
        });
        c.sample(cs);
      }
    } else {
      while (pos < all.length && !c.tooMany()) {
        const n = all[pos];
        const bytes = all.slice(pos + 1, pos + 1 + n);
        const v = view.getBigUint64(pos + 1 + n, true);
        const used = view.getInt8(pos + 9 + n);
        pos += 10 + n;
        if (!c.mine()) continue;
        const cs = { bytes: hex(bytes), indexerValue: v, indexerBytes: used };
        c.state("s" + hex(bytes));
        await c.guard("string", cs, () => {
          const d = decodeUvarint(bytes.buffer);
          c.trans();
          c.trace();
          if (used <= 0) {
            if (d.bytesRead > 0) c.violate("invalid", cs, `invalid bytes ${hex(bytes)} are read as ${d.value}`);
            if (used === 0 && d.bytesRead !== 0) c.violate("incomplete", cs, `incomplete bytes ${hex(bytes)} are reported as ${d.bytesRead}`);
            if (used < 0 && d.bytesRead >= 0) c.violate("overlong", cs, `overlong bytes ${hex(bytes)} are reported as ${d.bytesRead}`);
          } else {
            if (d.bytesRead !== used) c.violate("length", cs, `${hex(bytes)} uses ${d.bytesRead} bytes, the indexer uses ${used}`);
            else if (v <= MAX && BigInt(d.value) !== v) c.violate("value", cs, `${hex(bytes)} is read as ${d.value}, the indexer reads ${v}`);
          }
        });
      }
    }
  }
}

check({
  id: "C05",
  run,
  rule: "every value below the bound, all neighbourhoods of powers of two up to 2^53, all septet mixtures; every byte string over boundary bytes up to the bound and every continuation pattern up to 12 bytes; each encoded by the real indexer and read, written and cut by the real client",
  assumptions: ["numbers above 2^53 cannot be represented exactly by the client and are not compared (their length is)"],
});
