// Reads {path: source} from stdin, writes {path: ESTree or {error}}; acorn does the parsing.
const acorn = require(process.env.ACORN || "/opt/veriftools/node/node_modules/acorn");
let text = "";
process.stdin.on("data", d => (text += d)).on("end", () => {
  const out = {};
  for (const [path, source] of Object.entries(JSON.parse(text))) {
    try {
      out[path] = acorn.parse(source, { ecmaVersion: "latest", sourceType: "module" });
    } catch (err) {
      out[path] = { error: String(err) };
    }
  }
  const big = (k, v) => (typeof v === "bigint" ? String(v) : v instanceof RegExp ? null : v);
  process.stdout.write(JSON.stringify(out, big));
});
