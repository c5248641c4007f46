// Line server around the wasm packages: one JSON request per line on stdin, one JSON answer per
// line on stdout.  Request: {pkg, fn, args}; an argument {"$undefined": true} stands for undefined.
// Answer: {ok: value} or {err: text, trap: bool}.
const path = require("path");
const dir = process.argv[2];
const files = {
  compiler: path.join(dir, "zk_regex_compiler.js"),
  apis: path.join(dir, "zk_regex_apis.js"),
};
const loaded = {};
function pkg(name) {
  if (!loaded[name]) {
    delete require.cache[require.resolve(files[name])];
    loaded[name] = require(files[name]);
  }
  return loaded[name];
}
// the packages may print; keep stdout for answers
const write = process.stdout.write.bind(process.stdout);
console.log = console.error = console.warn = console.info = () => {};
function answer(line) {
  const req = JSON.parse(line);
  const args = req.args.map((a) => (a && a.$undefined ? undefined : a));
  let p;
  try {
    p = pkg(req.pkg);
    if (typeof p[req.fn] !== "function") return { missing: req.fn };
  } catch (e) {
    return { missing: String(e) };
  }
  try {
    const v = p[req.fn](...args);
    return { ok: v === undefined ? null : v };
  } catch (e) {
    const trap = e instanceof WebAssembly.RuntimeError || e instanceof RangeError;
    if (trap) delete loaded[req.pkg]; // a panic leaves the instance unusable
    return { err: e instanceof Error ? e.message : String(e), trap };
  }
}
let buf = "";
process.stdin.setEncoding("utf8");
process.stdin.on("data", (d) => {
  buf += d;
  let i;
  while ((i = buf.indexOf("\n")) >= 0) {
    const line = buf.slice(0, i);
    buf = buf.slice(i + 1);
    write(JSON.stringify(answer(line)) + "\n");
  }
});
