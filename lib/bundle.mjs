// Bundles a driver together with the code under test, from /repo's working tree, into a scratch directory.
import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";
import { VERIF } from "./tlc.mjs";

const require = createRequire("/opt/veriftools/node/node_modules/");
export const REPO = process.env.VERIF_REPO ?? "/repo";
export const COMMON = path.join(REPO, "lib/digitraffic-common");

const resolveTs = (p) => {
  const c = p.replace(/\.js$/, "");
  for (const x of [`${c}.ts`, `${c}.tsx`, `${c}.mts`, c, `${c}/index.ts`, p]) {
    if (fs.existsSync(x) && fs.statSync(x).isFile()) return x;
  }
  return undefined;
};

/**
 * stubs: {"package-or-regex-source": "file under /verif/drivers/stubs"}; a stub replaces an npm package (a boundary).
 */
const pluginOf = (stubs) => ({
    name: "verif",
    setup(b) {
      b.onResolve({ filter: /.*/ }, (a) => {
        if (a.kind === "entry-point") return undefined;
        const s = stubs[a.path];
        if (s) return { path: path.join(VERIF, "drivers/stubs", s) };
        if (a.path.startsWith("@lib/")) {
          return { path: resolveTs(path.join(COMMON, "src", a.path.slice(5))) };
        }
        if (a.path.startsWith("@repo/")) {
          return { path: resolveTs(path.join(REPO, a.path.slice(6))) };
        }
        if (a.path.startsWith("@drivers/")) {
          return { path: resolveTs(path.join(VERIF, "drivers", a.path.slice(9))) };
        }
        const m = a.path.match(/^@digitraffic\/common(?:\/dist\/(.*))?$/);
        if (m) return { path: resolveTs(path.join(COMMON, "src", m[1] ?? "index.js")) };
        if (a.path.startsWith("node:")) return { external: true };
        if (a.path.startsWith(".")) {
          const r = resolveTs(path.resolve(a.resolveDir, a.path));
          return r ? { path: r } : undefined;
        }
        // an npm package: left to node, which finds it in digitraffic-common's node_modules (NODE_PATH)
        return { external: true, path: a.path };
      });
    },
  });
export async function bundle(entry, outfile, opts = {}) {
  const esbuild = require("esbuild");
  const plugin = pluginOf(opts.stubs ?? {});
  await esbuild.build({
    entryPoints: [entry],
    outfile,
    bundle: true,
    platform: "node",
    format: "cjs",
    target: "node22",
    sourcemap: false,
    logLevel: "silent",
    keepNames: true,
    plugins: [plugin],
    loader: { ".json": "json", ".txt": "text" },
    ...(opts.esm ? { format: "esm", banner: { js: 'import { createRequire as __cr } from "node:module"; const require = __cr(import.meta.url);' } } : {}),
    ...(opts.esbuild ?? {}),
  });
}

/** Transpiles digitraffic-common file by file into dir/libdist (for code that reads its own source text). */
export async function transpileTree(dir) {
  const esbuild = require("esbuild");
  const src = path.join(COMMON, "src"), out = path.join(dir, "libdist");
  const files = fs.readdirSync(src, { recursive: true }).map(String).filter((f) => f.endsWith(".ts") && !f.endsWith(".d.ts") && !f.includes("__test__")).map((f) => path.join(src, f));
  await esbuild.build({ entryPoints: files, outdir: out, outbase: src, bundle: false, platform: "node", format: "esm", target: "es2022", logLevel: "silent" });
  fs.writeFileSync(path.join(out, "package.json"), '{"type":"module"}');
  if (!fs.existsSync(path.join(out, "node_modules"))) fs.symlinkSync(path.join(COMMON, "node_modules"), path.join(out, "node_modules"));
}

/** Bundles that a driver loads by itself: handlers that a stack deploys from files, modules that must be loaded afresh. */
export async function buildExtra(dir, x) {
  const esbuild = require("esbuild");
  for (const h of [x.handlers ?? []].flat()) {
    const src = path.join(REPO, h.dir), out = path.join(dir, h.out);
    fs.mkdirSync(out, { recursive: true });
    for (const f of fs.readdirSync(src).filter((f) => f.endsWith(".ts") && !f.endsWith(".d.ts") && !(h.skip && h.skip.test(f)))) {
      const r = await esbuild.build({ entryPoints: [path.join(src, f)], bundle: true, write: false, platform: "node", format: "esm", target: "node22", logLevel: "silent", plugins: [pluginOf(h.stubs ?? {})] });
      // commonjs the way rollup writes it
      let imports = "", exports = "";
      const body = r.outputFiles[0].text
        .replace(/^import (\w+) from "([^"]+)";$/gm, (_, n, m) => { imports += `const ${n} = require("${m}");\n`; return ""; })
        .replace(/^import \* as (\w+) from "([^"]+)";$/gm, (_, n, m) => { imports += `const ${n} = require("${m}");\n`; return ""; })
        .replace(/^import \{([^}]*)\} from "([^"]+)";$/gm, (_, n, m) => { imports += `const {${n.replace(/ as /g, ": ")}} = require("${m}");\n`; return ""; })
        .replace(/^export \{([^}]*)\};?$/m, (_, n) => { exports = n.split(",").map((e) => e.trim()).filter(Boolean).map((e) => { const [a, b] = e.split(" as "); return `exports.${b ?? a} = ${a};`; }).join("\n"); return ""; });
      if (/^(import|export) /m.test(body)) throw new Error(`${f}: cannot be written as commonjs`);
      fs.writeFileSync(path.join(out, f.replace(/\.ts$/, ".cjs")), `'use strict';\n\n${imports}${body}\n${exports}\n`);
    }
  }
  for (const [name, files] of Object.entries(x.modules ?? {})) {
    await esbuild.build({ stdin: { contents: files.map((f) => `export * from "@repo/${f}";`).join("\n"), resolveDir: dir, loader: "ts" }, outfile: path.join(dir, name), bundle: true, platform: "node", format: "cjs", target: "node22", logLevel: "silent", keepNames: true, plugins: [pluginOf(x.stubs ?? {})] });
  }
}
