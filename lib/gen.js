// usage: node gen.js OUTDIR NAME=PRIME ...     renders ffiasm fields from $FFIASM (default /repo)
"use strict";
const path = require("path");
const fs = require("fs");
process.env.NODE_PATH = path.join(__dirname, "nm");
require("module").Module._initPaths();
const repo = process.env.FFIASM || "/repo";
const build = require(path.join(repo, "index.js")).buildZqField;
const bigInt = require("big-integer");
(async () => {
    const out = process.argv[2];
    fs.mkdirSync(out, {recursive: true});
    for (const spec of process.argv.slice(3)) {
        const [name, prime] = spec.split("=");
        const s = await build(bigInt(prime), name);
        const f = path.join(out, name.toLowerCase());
        fs.writeFileSync(f + ".asm", s.asm);
        fs.writeFileSync(f + ".hpp", s.hpp);
        fs.writeFileSync(f + ".cpp", s.cpp);
        fs.writeFileSync(f + "_element.hpp", s.element_hpp);
        fs.writeFileSync(f + "_generic.cpp", s.generic_cpp);
        fs.writeFileSync(f + "_raw_generic.cpp", s.raw_generic_cpp);
        fs.writeFileSync(f + "_raw_arm64.s", s.raw_arm64_s);
    }
})().catch((e) => { console.error(e); process.exit(3); });
