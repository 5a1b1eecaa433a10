// Minimal stand-in for the npm package "yargs" (not installed here): what the generator's command line uses.
"use strict";
const aliases = [];
const demanded = [];
let usage = "";
function number(s) {
    // like yargs-parser: what looks like a number and fits one is a number
    return /^[-]?(0x[0-9a-f]+|\d+(\.\d*)?(e[-+]?\d+)?)$/i.test(s) && Number.isSafeInteger(Math.floor(Number(s))) ? Number(s) : s;
}
function parse(args) {
    const r = {_: []};
    const set = (k, v) => {
        const names = new Set([k]);
        for (const a of aliases) if (a.includes(k)) a.forEach((x) => names.add(x));
        for (const n of names) r[n] = n in r ? [].concat(r[n], v) : v;
    };
    for (let i = 0; i < args.length; i++) {
        const a = args[i];
        const value = () => i + 1 < args.length && !/^--?[a-z]/i.test(args[i + 1]) ? number(args[++i]) : true;
        let m;
        if (a === "--") { r._.push(...args.slice(i + 1)); break; }
        else if ((m = /^--([^=]+)=(.*)$/s.exec(a))) set(m[1], number(m[2]));
        else if ((m = /^--no-(.+)$/.exec(a))) set(m[1], false);
        else if ((m = /^--(.+)$/.exec(a))) set(m[1], value());
        else if ((m = /^-([a-z]+)=(.*)$/is.exec(a))) { for (const f of m[1].slice(0, -1)) set(f, true); set(m[1].slice(-1), number(m[2])); }
        else if ((m = /^-([a-z]+)$/i.exec(a))) { for (const f of m[1].slice(0, -1)) set(f, true); set(m[1].slice(-1), value()); }
        else if ((m = /^-([a-z])(\d+)$/i.exec(a))) set(m[1], number(m[2]));
        else r._.push(number(a));
    }
    for (const d of demanded) if (!(d in r)) { process.stderr.write(usage + "\nMissing required argument: " + d + "\n"); process.exit(1); }
    return r;
}
const api = {
    usage(s) { usage = s; return api; },
    demandOption(d) { demanded.push(...[].concat(d)); return api; },
    demand(d) { return api.demandOption(d); },
    option(k, o) { if (o && o.alias) api.alias(k, o.alias); if (o && (o.demandOption || o.demand)) api.demandOption(k); return api; },
    describe() { return api; }, string() { return api; }, help() { return api; }, version() { return api; }, strict() { return api; },
    alias(k, a) { aliases.push([k].concat(a)); return api; },
    parse(a) { return parse(a || process.argv.slice(2)); },
    get argv() { return parse(process.argv.slice(2)); },
};
module.exports = api;
