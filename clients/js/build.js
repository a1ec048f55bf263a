// Bundles the repository's code generator and JavaScript client. usage: node build.js REPO OUT gen|client|cli
const path = require("path"), fs = require("fs");
const NM = "/opt/veriftools/node/node_modules";
const esbuild = require(NM + "/esbuild");
const [repo, out, what] = process.argv.slice(2);
const stub = (n) => path.join(__dirname, "stubs", n + ".js");
const real = (n) => require.resolve(n, { paths: [NM] });
const alias = {
  "class-transformer": stub("class-transformer"), nanoid: stub("nanoid"), "@rtbot-dev/wasm": stub("wasm"),
  yaml: stub("yaml"), prettier: stub("prettier"), "json-schema-to-zod": stub("json-schema-to-zod"),
  "json-schema-to-typescript": stub("json-schema-to-typescript"),
};
const cli = { commander: 1, papaparse: 1, immer: 1, blessed: 1, fs: 1, "node:fs": "fs", "zustand/vanilla": "zustand", zustand: "zustand" };
const plugin = {
  name: "seams",
  setup(b) {
    b.onResolve({ filter: /^[@a-z]/ }, (a) => (alias[a.path] ? { path: alias[a.path] } : undefined));
    if (what === "cli") {
      b.onResolve({ filter: /^[@a-z]/ }, (a) => (cli[a.path] ? { path: stub("cli/" + (cli[a.path] === 1 ? a.path : cli[a.path])) } : undefined));
      b.onResolve({ filter: /^@rtbot-dev\/rtbot$/ }, () => ({ path: path.join(repo, "libs/wrappers/javascript/src/index.ts") }));
    }
    b.onResolve({ filter: /^zod$/ }, () => ({ path: what !== "gen" ? real("zod/v3") : real("zod"), external: what !== "gen" }));
    b.onResolve({ filter: /generated(\.js|\.ts)?$/ }, (a) => (a.path.startsWith(".") && a.importer.includes("/javascript/src/") ? { path: path.join(out, "typescript", "index.ts") } : undefined));
    // the generated file imports the hand-written part from "./program"
    b.onResolve({ filter: /^\./ }, (a) => (a.importer === path.join(out, "typescript", "index.ts") ? { path: path.join(repo, "libs/wrappers/javascript/src", a.path.replace(/^\.\//, "").replace(/\.(js|ts)$/, "") + ".ts") } : undefined));
  },
};
const opt = { bundle: true, platform: "node", format: "cjs", target: "node20", logLevel: "error", plugins: [plugin], nodePaths: [NM] };
(async () => {
  if (what === "gen") {
    fs.mkdirSync(out + "/generator/src", { recursive: true });
    fs.cpSync(repo + "/tools/generator/templates", out + "/generator/templates", { recursive: true });
    await esbuild.build({ ...opt, entryPoints: [repo + "/tools/generator/src/index.ts"], outfile: out + "/generator/src/index.js", tsconfigRaw: { compilerOptions: {} } });
  } else {
    await esbuild.build({ ...opt, entryPoints: [repo + (what === "cli" ? "/apps/cli/src/index.ts" : "/libs/wrappers/javascript/src/index.ts")], outfile: out + "/" + what + ".js",
      tsconfigRaw: { compilerOptions: { experimentalDecorators: true, useDefineForClassFields: true, target: "ESNext" } } });
  }
})().catch((e) => { console.error(e.message); process.exit(1); });
