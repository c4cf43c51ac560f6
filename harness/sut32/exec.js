// Program around the thunks on WebAssembly: node exec.js MODULE; see fwd.c.
const fs = require("fs");
const m = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const e = new WebAssembly.Instance(m, {}).exports;
const buf = e.sut_buffer();
const mem = () => new Uint8Array(e.memory.buffer, buf, 128);
const req = Buffer.alloc(80), ans = Buffer.alloc(48);
const hello = Buffer.alloc(4);
hello.writeUInt32LE(e.sut_table_len());
fs.writeSync(1, hello);
let v = mem();
try {
    for (;;) {
        let n = 0;
        while (n < 80) {
            const k = fs.readSync(0, req, n, 80 - n, null);
            if (k === 0) process.exit(0);
            n += k;
        }
        if (v.length === 0) v = mem();
        v.set(req.subarray(16, 80), 0);
        v.fill(0, 64, 112);
        e.sut_call(req.readUInt32LE(0), buf, buf + 64);
        ans.set(v.subarray(64, 112));
        fs.writeSync(1, ans);
    }
} catch (x) {
    process.kill(process.pid, "SIGILL");
}
