/* node page.js REPO < CASE > OBSERVATIONS
 * Lives through a history of a notebook in a browser: pages (outputs) of
 * trappy plots come and go, and are zoomed, brushed, clicked and resized.
 * CASE: {"steps": [...]}; one observation of all pages after every step. */
"use strict";
const fs = require("fs"), path = require("path"), vm = require("vm");
const B = require("./browser.js");

const repo = process.argv[2];
const JS = path.join(repo, "trappy", "plotter", "js");
const UNIT = 2048;                       /* time is counted in 1/2048 seconds */
const PX = 64;                           /* places are counted in 1/64 pixels */
const round = x => Number.isFinite(x) ? Math.max(-1e9, Math.min(1e9, Math.round(x))) : -999999999;

const b = B.open();
const g = { document: b.document, window: b.window, $: b.$, jQuery: b.$, console: { log() {}, warn() {}, error() {} }, setTimeout: f => f(), clearTimeout() {},
            parseFloat, parseInt, isNaN };
vm.createContext(g);
const libs = {                           /* what the libraries leave behind when they are loaded */
    "d3.min": () => { g.d3 = b.d3; delete g.d3.tip; },
    "d3.tip.v0.6.3": () => { g.d3.tip = b.d3.tip_; },
    "dygraph-combined": () => { g.Dygraph = b.Dygraph; g.Dygraph.sync_ = g.Dygraph.sync_ || g.Dygraph.synchronize; delete g.Dygraph.synchronize; },
    "synchronizer": () => { g.Dygraph.synchronize = g.Dygraph.sync_; },
    "underscore-min": () => { g._ = {}; },
};
const loaded = {};
g.requirejs = g.require = function () {};
g.require.config = cfg => {
    const load = name => {
        const p = (cfg.paths || {})[name];
        if (!p) { if (name === "require") return; throw new Error("no path for " + name); }
        if (loaded[p]) return;
        loaded[p] = true;
        const shim = (cfg.shim || {})[name] || [];
        for (const d of Array.isArray(shim) ? shim : shim.deps || []) load(d);
        const base = path.posix.basename(p);
        if (libs[base]) libs[base]();
        else vm.runInContext(fs.readFileSync(path.join(JS, base + ".js"), "utf8"), g, { filename: base + ".js" });
    };
    return (deps, f) => { for (const d of deps) load(d); f(); };
};

const pages = {};
function svgTexts(svg) { return B.find(svg, "text").filter(seen).map(t => t.textContent).filter(t => t !== ""); }
function seen(e) { for (; e; e = e.parentNode) if (e.attrs && (e.attrs.visibility === "hidden" || e.css.visibility === "hidden" || e.css.display === "none")) return false; return true; }
function segments(d) {                  /* the level strokes of a path; any other is out of place */
    const out = [], odd = { x0: -999999999, y: 0, x1: 0 };
    let x = 0, y = 0;
    for (const m of d.matchAll(/([a-zA-Z])([^a-zA-Z]*)/g)) {
        const v = (m[2].match(/[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?/gi) || []).map(Number), c = m[1].toUpperCase(), rel = m[1] !== c;
        if (m[2].replace(/[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?/gi, "").replace(/[\s,]/g, "")) { out.push(odd); continue; }
        if (c === "Z") continue;
        if (c === "M" && v.length === 2) { x = v[0] + (rel ? x : 0); y = v[1] + (rel ? y : 0); }
        else if (c === "H" && v.length === 1) { const to = v[0] + (rel ? x : 0); out.push({ x0: round(x * PX), y: round(y * PX), x1: round(to * PX) }); x = to; }
        else if (c === "L" && v.length === 2 && (rel ? v[1] === 0 : v[1] === y)) { const to = v[0] + (rel ? x : 0); out.push({ x0: round(x * PX), y: round(y * PX), x1: round(to * PX) }); x = to; }
        else out.push(odd);
    }
    return out;
}
function paths(svg, cls) {
    const out = [];
    for (const p of B.find(svg, "path." + cls).filter(seen)) {
        b.window.tip_ = null;
        B.fire(p, "mouseover", {});
        const name = b.window.tip_ === null ? "" : b.window.tip_.replace(/<[^>]*>/g, "");
        B.fire(p, "mouseout", {});
        for (const s of segments(p.attrs.d || "")) out.push(Object.assign({ name: name, colour: p.attrs.stroke || "" }, s));
    }
    return out;
}
function axis(svg) { const a = B.find(svg, "g").filter(x => x.axis_).map(x => ({ lo: round(x.axis_.domain[0] * UNIT), hi: round(x.axis_.domain[1] * UNIT), left: round(x.axis_.range[0] * PX), right: round(x.axis_.range[1] * PX) })); return a.length ? a[a.length - 1] : { lo: 0, hi: 0, left: 0, right: 0 }; }
function labels(svg) { return B.find(svg, "text.laneText").map(t => ({ text: t.textContent, y: round(t.attrs.y * PX) })); }
function lines(svg) { return B.find(svg, "line").filter(l => l.parentNode.childNodes.every(x => x.tagName === "line")).map(l => round(l.attrs.x2 * PX)); }
/* where a part of a picture lies in it: left, top, right and bottom margin */
function margins(svg, g) {
    const m = /^\s*translate\(\s*([-+\d.e]+)\s*(?:[,\s]\s*([-+\d.e]+)\s*)?\)\s*$/.exec(g.attrs.transform || "translate(0,0)"), x = m ? +m[1] : NaN, y = m ? +(m[2] || 0) : NaN;
    return [x, y, svg.attrs.width - x - axis(svg).right / PX, svg.attrs.height - y - g.attrs.height].map(v => round(v * PX));
}
function timeline(div) {
    const svgs = B.find(div, "svg"), one = c => svgs.find(s => B.find(s, c).length);
    const chart = one("g.main path.mItem") || svgs.find(s => s.classes.includes("chart")), info = svgs.find(s => s.classes.includes("info"));
    const mini = svgs.find(s => B.find(s, "g.mini").length);
    const marks = ["A", "B"].map(m => {
        const t = B.find(chart, "text").filter(seen).filter(x => x.textContent === m && !x.classes.includes("laneText"));
        return t.map(x => { const l = B.find(x.parentNode, "line"); return l.length === 1 && l[0].attrs.x1 === l[0].attrs.x2 && round(l[0].attrs.x1 * PX) === round(x.attrs.x * PX) ? round(x.attrs.x * PX) : -1; });
    });
    const said = { A: [], B: [], D: [], other: [] };
    for (const t of svgTexts(info)) {
        const m = /^(A|B|A - B|B - A) = (-?\d+\.\d{6})$/.exec(t), r = /^(-?\d+\.\d{6}) to (-?\d+\.\d{6}) \((-?\d+\.\d{6})\)$/.exec(t);
        if (m) said[m[1].length > 1 ? "D" : m[1]].push(round((m[1] === "B - A" ? -1 : 1) * m[2] * UNIT) + 0);
        else if (r) said.other.push({ name: "", s: round(r[1] * UNIT), e: round(r[2] * UNIT), d: round(r[3] * UNIT) });
        else said.other.push({ name: t, s: 0, e: 0, d: 0 });
    }
    const rect = B.find(chart, "rect.contextRect").filter(seen).map(r => ({ x: round(r.attrs.x * PX), y: round(r.attrs.y * PX), w: round(r.attrs.width * PX), h: round(r.attrs.height * PX) }));
    return { margins: margins(chart, B.find(chart, "g.main")[0]), width: round(chart.attrs.width * PX), height: round((B.find(chart, "g.main")[0].attrs.height) * PX), axis: axis(chart), shapes: paths(chart, "mItem"), lanes: labels(chart), lines: lines(chart),
             marks: { A: marks[0], B: marks[1] }, said: said, rect: rect, swatch: B.find(info, "rect").map(r => r.attrs.stroke || ""),
             summary: !!mini,
             mini: mini ? { margins: margins(mini, B.find(mini, "g.mini")[0]), width: round(mini.attrs.width * PX), height: round(B.find(mini, "g.mini")[0].attrs.height * PX), axis: axis(mini), shapes: paths(mini, "miniItem").map(s => ({ name: s.name, colour: s.colour, x0: s.x0, y: s.y, x1: s.x1 })), lanes: labels(mini), lines: lines(mini),
                            brush: B.find(mini, "g").filter(x => x.brush_).map(x => x.extent_.map(v => round(v * UNIT))) }
                        : { margins: [0, 0, 0, 0], width: 0, height: 0, axis: { lo: 0, hi: 0, left: 0, right: 0 }, shapes: [], lanes: [], lines: [], brush: [] } };
}
function graph(p, gr) {
    const o = gr.attrs_, xr = gr.xAxisRange(), yr = gr.yAxisRange();
    return { id: gr.div_ ? gr.div_.id : "", legend: o.labelsDiv, labels: o.labels, title: o.title || "",
             rows: Array.from(gr.rawData_, r => ({ t: round(r[0] * UNIT), vs: Array.from(r.length > 1 ? Array.from(r).slice(1) : [], v => v === undefined || v === null || Number.isNaN(v) ? { k: "n", i: 0 } : { k: "i", i: round(v * 1000) }) })),
             x: [round(xr[0] * UNIT), round(xr[1] * UNIT)], y: [round(yr[0] * 1000), round(yr[1] * 1000)],
             w: round(gr.width_), h: round(gr.height_), step: !!o.stepPlot, fill: !!o.fillGraph, alpha: o.fillAlpha === undefined ? 0 : round(o.fillAlpha * 100), points: !!o.drawPoints, stroke: round(o.strokeWidth), psize: round(o.pointSize),
             connect: !!o.connectSeparatedPoints, roll: round(o.rollPeriod), log: !!o.logscale, bars: !!o.errorBars, colors: o.colors ? Array.from(o.colors) : [], given: o.colors !== undefined };
}
function observe() {
    const out = { pages: [], syncs: [] };
    const shown = [];
    for (const n of Object.keys(pages).map(Number).sort((a, c) => a - c)) {
        const p = pages[n], plots = B.find(p.div, ".eventplot");
        const gs = b.window.graphs_.filter(x => { for (let e = x.div_; e; e = e.parentNode) if (e === p.div) return true; return false; });
        const last = gs.filter((x, i) => !gs.slice(i + 1).some(y => y.div_ === x.div_));
        last.forEach((x, i) => shown.push({ gr: x, page: n, fig: i + 1 }));
        out.pages.push({ n: n, timelines: plots.map(timeline), graphs: last.map(x => graph(p, x)), help: B.find(b.document.body, ".modal").map(d => B.find(d, "img").map(i => i.attrs.src || "").join(" ")) });
    }
    const place = x => { const s = shown.find(y => y.gr === x); return s ? { page: s.page, fig: s.fig } : { page: 0, fig: 0 }; };
    out.syncs = b.window.syncs_.filter(s => s.live).map(s => ({ graphs: s.graphs.map(place), zoom: s.opts.zoom !== false, range: s.opts.range !== false }));
    return out;
}
const chartOf = n => { const d = B.find(pages[n].div, ".eventplot")[0]; return B.find(d, "svg").find(s => s.zoom_) || B.find(d, "g").find(s => s.zoom_); };
const doing = {
    page(s) {
        const div = new B.Element("div");
        div.className = "output_subarea"; div.width_ = s.width; div.id = "cell_" + s.n;
        b.document.body.appendChild(div);
        pages[s.n] = { div: div };
        b.$(div).append(s.html);
        for (const sc of B.find(div, "script")) vm.runInContext(sc._text, g, { filename: "page " + s.n });
    },
    drop(s) { pages[s.n].div.remove(); delete pages[s.n]; },
    resize(s) {
        for (const n in pages) pages[n].div.width_ = s.width;
        B.fire(b.window, "resize", {});
    },
    zoom(s) { const c = chartOf(s.n); c.zoom_.user_(c, s.steps); },
    brush(s) { const m = B.find(pages[s.n].div, "g").find(x => x.brush_); m.brush_.user_(m, s.path.map(e => e.map(v => v / UNIT))); },
    click(s) {
        let stopped = false;
        const c = B.find(pages[s.n].div, "svg").find(x => (x.handlers.contextmenu || []).length) || B.find(pages[s.n].div, "g").find(x => (x.handlers.contextmenu || []).length);
        B.fire(c, "contextmenu", { ctrlKey: !!s.ctrl, altKey: !!s.alt, at: s.at, preventDefault() { stopped = true; }, stopPropagation() {} });
        if (!stopped) throw new Error("the menu of the browser opened");
    },
    look(s) {                            /* the user drags over a window of a graph; those in step with it follow */
        const gs = b.window.graphs_.filter(x => { for (let e = x.div_; e; e = e.parentNode) if (e === pages[s.n].div) return true; return false; });
        const gr = gs[s.fig - 1], to = s.x.map(v => v / UNIT), all = new Set([gr]);
        for (const y of b.window.syncs_) if (y.live && y.opts.zoom !== false && y.graphs.includes(gr)) y.graphs.forEach(x => all.add(x));
        for (const x of all) x.updateOptions({ dateWindow: to.slice() });
    },
    help(s) { const bt = B.find(pages[s.n].div, "button")[0]; vm.runInContext(bt.attrs.onclick, g); },
};
const steps = JSON.parse(fs.readFileSync(0, "utf8")).steps;
const out = [];
const told = e => { const m = String(e && e.message || e); return m.startsWith(B.UNSUPPORTED) ? "unsupported" : m; };
for (const s of steps) {
    let err = "";
    try { doing[s.do](s); } catch (e) { err = told(e); }
    let o = { pages: [], syncs: [] };
    try { o = observe(); } catch (e) { err = err || told(e); }
    out.push(Object.assign({ err: err }, o));
}
process.stdout.write(JSON.stringify(out));
