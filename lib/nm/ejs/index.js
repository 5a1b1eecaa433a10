// Minimal stand-in for the npm package "ejs" (not installed here): the subset of
// the template language that the ffiasm templates use, with ejs 3 semantics.
"use strict";
const fs = require("fs");
const path = require("path");

function escapeXML(s) {
    if (s === undefined || s === null) return "";
    return String(s).replace(/[&<>'"]/g, (c) => ({"&": "&amp;", "<": "&lt;", ">": "&gt;", "\"": "&#34;", "'": "&#39;"}[c]));
}
function raw(s) { return (s === undefined || s === null) ? "" : String(s); }

function stripSemi(s) { return s.replace(/;(\s*$)/, "$1"); }

function compile(text, filename) {
    text = text.replace(/\r\n/g, "\n");
    // ejs: <%_ strips leading blanks of its line, _%> trailing blanks+newline
    text = text.replace(/[ \t]*<%_/gm, "<%_").replace(/_%>[ \t]*/gm, "_%>");
    let src = "let __o = '';\nfunction __append(s) { if (s !== undefined && s !== null) __o += s; }\nwith (__locals) {\n";
    let pos = 0;
    let truncate = false;
    const lit = (s) => {
        if (truncate) { s = s.replace(/^(?:\r\n|\r|\n)/, ""); truncate = false; }
        if (s.length) src += "__append(" + JSON.stringify(s).replace(/\u2028/g, "\\u2028").replace(/\u2029/g, "\\u2029") + ");\n";
    };
    while (pos < text.length) {
        const a = text.indexOf("<%", pos);
        if (a < 0) { lit(text.slice(pos)); break; }
        if (text[a + 2] === "%") { lit(text.slice(pos, a) + "<%"); pos = a + 3; continue; }
        if (a > pos) lit(text.slice(pos, a)); else truncate = truncate && false;
        let mode = "";
        let p = a + 2;
        if ("=-#_".includes(text[p])) { mode = text[p]; p++; }
        const b = text.indexOf("%>", p);
        if (b < 0) throw new Error("Could not find matching close tag in " + filename);
        let code = text.slice(p, b);
        let trim = false;
        if (code.endsWith("-") || code.endsWith("_")) { trim = true; code = code.slice(0, -1); }
        if (mode === "=") src += "__append(__escape(" + stripSemi(code) + "\n));\n";
        else if (mode === "-") src += "__append(__raw(" + stripSemi(code) + "\n));\n";
        else if (mode !== "#") src += code + "\n";
        pos = b + 2;
        truncate = trim;
    }
    src += "}\nreturn __o;\n";
    let fn;
    try {
        fn = new Function("__locals", "__escape", "__raw", "include", src);
    } catch (e) {
        e.message += " while compiling " + filename;
        throw e;
    }
    return fn;
}

function render(filename, data) {
    const fn = compile(fs.readFileSync(filename, "utf8"), filename);
    const include = (f, d) => {
        let t = path.resolve(path.dirname(filename), f);
        if (!path.extname(t)) t += ".ejs";
        return render(t, Object.assign({}, data, d || {}));
    };
    // like ejs: a shallow copy of the data is what the template sees; the prototype stays reachable
    const scope = Object.create(data);
    return fn(scope, escapeXML, raw, include);
}

exports.escapeXML = escapeXML;
exports.render = (str, data) => compile(str, "(string)")(Object.create(data || {}), escapeXML, raw, () => { throw new Error("include"); });
exports.renderFile = (filename, data, opts, cb) => {
    if (typeof data === "function") { cb = data; data = {}; }
    if (typeof opts === "function") { cb = opts; }
    if (!cb) return new Promise((ok, ko) => exports.renderFile(filename, data, (e, r) => e ? ko(e) : ok(r)));
    let out;
    try { out = render(filename, data || {}); } catch (e) { return cb(e); }
    cb(null, out);
};
