"use strict";
// Loaded before the script under test: every connection it opens goes to the stand-in server on the
// loopback interface (or to a closed port), the machine looks like the one the case asks for, and
// long timeouts are shortened where the case has the server stall.
const fs = require("fs");
const net = require("net");
const os = require("os");
const E = process.env;
const refuse = new Set((E.QLCV_REFUSE || "").split(",").filter(Boolean).map(Number));
const scale = Number(E.QLCV_SCALE || 1);
let n = 0;
const connect = net.Socket.prototype.connect;
net.Socket.prototype.connect = function (...args) {
  const norm = Array.isArray(args[0]) ? args[0] : net._normalizeArgs(args);
  const o = norm[0];
  if (o && !o.path && E.QLCV_PORT) {
    const k = n++;
    fs.appendFileSync(E.QLCV_LOG, JSON.stringify({ k, host: String(o.host || ""), servername: String(o.servername || "") }) + "\n");
    const p = { ...o, host: "127.0.0.1", port: refuse.has(k) ? 1 : Number(E.QLCV_PORT), lookup: undefined };
    if (Array.isArray(args[0])) {
      args[0][0] = p;
      return connect.call(this, args[0]);
    }
    return norm[1] ? connect.call(this, p, norm[1]) : connect.call(this, p);
  }
  return connect.apply(this, args);
};
if (scale > 1) {
  const short = (ms) => (typeof ms === "number" && ms >= 1000 ? Math.max(400, ms / scale) : ms);
  const st = net.Socket.prototype.setTimeout;
  net.Socket.prototype.setTimeout = function (ms, f) { return st.call(this, short(ms), f); };
  const gt = global.setTimeout;
  global.setTimeout = Object.assign((f, ms, ...a) => gt(f, short(ms), ...a), gt);
  const at = AbortSignal.timeout;
  AbortSignal.timeout = (ms) => at.call(AbortSignal, short(ms));
}
if (E.QLCV_PLATFORM) {
  const [p, a] = E.QLCV_PLATFORM.split("-");
  os.platform = () => p;
  os.arch = () => a;
  Object.defineProperty(process, "platform", { value: p });
  Object.defineProperty(process, "arch", { value: a });
}
