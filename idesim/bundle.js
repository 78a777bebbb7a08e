// Bundles /repo/ide/src into one function body, with every outside module left to the simulator.
"use strict";
const fs = require("fs"), path = require("path");
exports.REPO = process.env.VERIF_REPO || "/repo";
exports.load = () => {
  const REPO = exports.REPO;
  const esbuild = require("/opt/veriftools/node/node_modules/esbuild");
  const pkg = JSON.parse(fs.readFileSync(path.join(REPO, "ide/package.json"), "utf8"));
  const toml = fs.readFileSync(path.join(REPO, "rust-toolchain.toml"), "utf8");
  const channel = /channel\s*=\s*"([^"]*)"/.exec(toml)[1];
  const components = [.../components\s*=\s*\[([^\]]*)\]/.exec(toml)[1].matchAll(/"([^"]*)"/g)].map((m) => m[1]);
  const r = esbuild.buildSync({
    entryPoints: [path.join(REPO, "ide/src/extension.ts")],
    bundle: true, write: false, platform: "node", format: "cjs", target: "node18", logLevel: "silent",
    packages: "external", loader: { ".scss": "empty", ".css": "empty" },
    tsconfigRaw: { compilerOptions: { esModuleInterop: true, target: "es2019", useDefineForClassFields: false } },
    define: { VERSION: JSON.stringify(pkg.version), TOOLCHAIN: JSON.stringify({ channel, components }) },
  });
  return { code: r.outputFiles[0].text, version: pkg.version, channel, components, commands: pkg.contributes.commands.map((c) => c.command) };
};
