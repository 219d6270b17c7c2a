/* The parts of a browser the plots of trappy use, for node: documents,
 * jQuery, d3 (version 3), d3-tip and Dygraph, as far as they are needed to
 * see what a plot shows. Nothing is drawn: everything stays to be read. */
"use strict";

/* ------------------------------------------------------------ documents */
/* What the real ones can do and these cannot is told apart from what nobody
 * can do: an error that begins with UNSUPPORTED. */
const UNSUPPORTED = "not in this browser: ";
function lacking(o, names, what) {
    for (const n of names.split(" "))
        if (!(n in o)) Object.defineProperty(o, n, { configurable: true, writable: true, enumerable: false, value: function () { throw new Error(UNSUPPORTED + what + n); } });
}

class Element {
    constructor(tag) {
        this.tagName = this.nodeName = tag.replace(/^svg:/, "");
        this.attrs = {}; this.css = {}; this.childNodes = []; this.parentNode = null; this.handlers = {}; this._text = "";
    }
    get id() { return this.attrs.id || ""; }
    set id(v) { this.attrs.id = v; }
    get className() { return this.attrs["class"] || ""; }
    set className(v) { this.attrs["class"] = v; }
    get classes() { return (this.attrs["class"] || "").split(/\s+/).filter(x => x); }
    get style() { return this.css; }
    get children() { return this.childNodes; }
    get firstChild() { return this.childNodes[0] || null; }
    get ownerDocument() { return Element.document; }
    get textContent() { return this._text + this.childNodes.map(c => c.textContent).join(""); }
    set textContent(t) { for (const c of this.childNodes.slice()) this.removeChild(c); this._text = t === null || t === undefined ? "" : String(t); }
    get innerHTML() { return this.textContent; }
    set innerHTML(h) { this.textContent = ""; for (const e of parse(String(h))) this.appendChild(e); }
    getAttribute(n) { return n in this.attrs ? this.attrs[n] : null; }
    setAttribute(n, v) { this.attrs[n] = String(v); }
    removeAttribute(n) { delete this.attrs[n]; }
    hasAttribute(n) { return n in this.attrs; }
    appendChild(c) { return this.insertBefore(c, null); }
    insertBefore(c, ref) {
        if (c.parentNode) c.parentNode.removeChild(c);
        const at = ref ? this.childNodes.indexOf(ref) : -1;
        if (at < 0) this.childNodes.push(c); else this.childNodes.splice(at, 0, c);
        c.parentNode = this;
        return c;
    }
    removeChild(c) { const i = this.childNodes.indexOf(c); if (i >= 0) { this.childNodes.splice(i, 1); c.parentNode = null; } return c; }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    get nextSibling() { const s = this.parentNode ? this.parentNode.childNodes : []; return s[s.indexOf(this) + 1] || null; }
    get previousSibling() { const s = this.parentNode ? this.parentNode.childNodes : []; return s[s.indexOf(this) - 1] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    get parentElement() { return this.parentNode; }
    get firstElementChild() { return this.firstChild; }
    hasChildNodes() { return this.childNodes.length > 0; }
    contains(e) { for (; e; e = e.parentNode) if (e === this) return true; return false; }
    matches(s) { return is(this, s); }
    closest(s) { for (let p = this; p instanceof Element; p = p.parentNode) if (is(p, s)) return p; return null; }
    replaceChild(n, o) { this.insertBefore(n, o); this.removeChild(o); return o; }
    append(...xs) { for (const x of xs) this.appendChild(x instanceof Element ? x : Object.assign(new Element("text"), { _text: String(x) })); }
    setAttributeNS(_, n, v) { this.setAttribute(n, v); }
    addEventListener(t, f) { (this.handlers[t] = this.handlers[t] || []).push({ space: "", f: e => f.call(this, e) }); }
    getBoundingClientRect() { return { left: 0, top: 0, right: wide(this), bottom: 0, width: wide(this), height: 0, x: 0, y: 0 }; }
    get clientWidth() { return wide(this); }
    get offsetWidth() { return wide(this); }
    querySelector(s) { return find(this, s)[0] || null; }
    querySelectorAll(s) { return find(this, s); }
    getElementsByTagName(s) { return find(this, s); }
    getElementsByClassName(s) { return find(this, "." + s); }
    get classList() {
        const me = this;
        return { add: c => { if (!me.classes.includes(c)) me.className = me.classes.concat(c).join(" "); },
                 remove: c => { me.className = me.classes.filter(x => x !== c).join(" "); }, contains: c => me.classes.includes(c) };
    }
}

lacking(Element.prototype, "cloneNode getBBox getComputedTextLength getCTM getScreenCTM createSVGPoint removeEventListener dispatchEvent insertAdjacentHTML insertAdjacentElement prepend before after replaceWith click focus blur animate scrollIntoView getAttributeNS getElementsByTagNameNS compareDocumentPosition getTotalLength getPointAtLength getSubStringLength", "element.");

/* how wide an element is: as wide as the nearest around it whose width is known */
function wide(e) {
    for (; e; e = e.parentNode)
        if (e.width_ !== undefined) return e.width_;
    return undefined;
}

function handle(e, type, f) {           /* type may carry a name space; null removes */
    const [t, ...sp] = type.split("."), space = sp.join(".");
    for (const k of t ? [t] : Object.keys(e.handlers))
        e.handlers[k] = (e.handlers[k] || []).filter(h => h.space !== space);
    if (f) e.handlers[t].push({ space: space, f: f });
}

function fire(e, type, event) {
    for (const h of (e.handlers[type] || []).slice()) h.f(event || {});
}

function compound(s) {
    const out = { tag: "", parts: [] };
    const re = /^([\w:*-]+)|#([\w-]+)|\.([\w-]+)|\[([\w-]+)(?:=["']?([^\]"']*)["']?)?\]/y;
    let m;
    while (re.lastIndex < s.length && (m = re.exec(s))) {
        if (m[1]) out.tag = m[1].replace(/^svg:/, "");
        else out.parts.push(m[2] ? x => x.id === m[2] : m[3] ? x => x.classes.includes(m[3]) : m[5] === undefined ? x => m[4] in x.attrs : x => x.attrs[m[4]] === m[5]);
        if (re.lastIndex >= s.length) return out;
    }
    throw new Error("selector " + s);
}
const compounds = {};
function is(e, sel) {
    return sel.split(",").some(one => {
        const c = compounds[one] = compounds[one] || one.trim().replace(/\s*>\s*/g, " > ").split(/\s+/).map(x => x === ">" ? ">" : compound(x));
        const from = (n, i) => {
            const k = c[i];
            if (!(n instanceof Element) || !((!k.tag || k.tag === "*" || k.tag === n.tagName) && k.parts.every(p => p(n)))) return false;
            if (i === 0) return true;
            if (c[i - 1] === ">") return from(n.parentNode, i - 2);
            for (let p = n.parentNode; p; p = p.parentNode) if (from(p, i - 1)) return true;
            return false;
        };
        return from(e, c.length - 1);
    });
}
function descendants(e, out) { for (const c of e.childNodes) { out.push(c); descendants(c, out); } return out; }
function find(e, sel) { return descendants(e, []).filter(c => is(c, sel)); }

const VOID = ["img", "br", "hr", "input", "meta", "link"];
function parse(html) {                  /* the elements of a piece of HTML; text of scripts and styles as it is */
    const top = new Element("top"); let here = top, m;
    html = html.replace(/<!--[\s\S]*?-->/g, "");
    const re = /<(script|style)([^>]*)>([\s\S]*?)<\/\1>|<\/([\w-]+)\s*>|<([\w-]+)((?:\s+[\w-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?|\s*[^>\s\w]+)*)\s*>|[^<]+|</g;
    while ((m = re.exec(html))) {
        if (m[1]) { const e = new Element(m[1]); e._text = m[3]; here.appendChild(e); }
        else if (m[4]) { for (let p = here; p !== top; p = p.parentNode) if (p.tagName === m[4]) { here = p.parentNode; break; } }
        else if (m[5]) {
            const e = new Element(m[5]);
            for (const a of (m[6] || "").matchAll(/([\w-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>"']+)))?/g)) e.attrs[a[1]] = a[2] || a[3] || a[4] || "";
            here.appendChild(e);
            if (!VOID.includes(m[5]) && !/\/\s*$/.test(m[6] || "")) here = e;
        } else if (here.childNodes.length === 0) here._text += m[0];
    }
    const out = top.childNodes.slice();
    for (const e of out) e.parentNode = null;
    return out;
}

/* --------------------------------------------------------------- jQuery */
function jQueryFor(document, window) {
    class JQ {
        constructor(els) { this.length = els.length; els.forEach((e, i) => { this[i] = e; }); }
        els() { return Array.from(this); }
        get(i) { return i === undefined ? this.els() : this[i]; }
        each(f) { this.els().forEach((e, i) => f.call(e, i, e)); return this; }
        first() { return new JQ(this.els().slice(0, 1)); }
        eq(i) { return new JQ(this.els().slice(i, i + 1)); }
        width(v) {
            if (v === undefined) return this.length ? (this[0] === window ? window.innerWidth : wide(this[0])) : undefined;
            return this.each((_, e) => { e.width_ = parseFloat(v); });
        }
        innerWidth() { return this.width(); }
        outerWidth() { return this.width(); }
        height(v) { if (v === undefined) return this.length ? parseFloat(this[0].height_ || 0) : undefined; return this.each((_, e) => { e.height_ = parseFloat(v); }); }
        _nodes(x) { return x instanceof JQ ? x.els() : x instanceof Element ? [x] : Array.isArray(x) ? x : /^\s*</.test(x) ? parse(x) : [Object.assign(new Element("text"), { _text: String(x) })]; }
        append(...xs) { if (this.length) for (const x of xs) for (const n of this._nodes(x)) this[0].appendChild(n); return this; }
        prepend(...xs) { if (this.length) for (const x of xs) for (const n of this._nodes(x)) this[0].insertBefore(n, this[0].firstChild); return this; }
        appendTo(x) { $(x).append(this); return this; }
        attr(n, v) {
            if (typeof n === "object") { for (const k in n) this.attr(k, n[k]); return this; }
            if (v === undefined) return this.length ? (this[0].getAttribute(n) === null ? undefined : this[0].getAttribute(n)) : undefined;
            return this.each((i, e) => e.setAttribute(n, typeof v === "function" ? v.call(e, i) : v));
        }
        removeAttr(n) { return this.each((_, e) => e.removeAttribute(n)); }
        css(n, v) {
            if (typeof n === "object") { for (const k in n) this.css(k, n[k]); return this; }
            if (v === undefined) return this.length ? this[0].css[n] : undefined;
            return this.each((_, e) => { e.css[n] = v; });
        }
        addClass(c) { return this.each((_, e) => c.split(/\s+/).forEach(x => e.classList.add(x))); }
        removeClass(c) { return this.each((_, e) => c.split(/\s+/).forEach(x => e.classList.remove(x))); }
        hasClass(c) { return this.els().some(e => e.classes.includes(c)); }
        text(t) { if (t === undefined) return this.els().map(e => e.textContent).join(""); return this.each((_, e) => { e.textContent = t; }); }
        html(t) { if (t === undefined) return this.length ? this[0].innerHTML : undefined; return this.each((_, e) => { e.innerHTML = t; }); }
        on(types, f) { for (const t of types.split(/\s+/)) this.each((_, e) => { const [n, ...s] = t.split("."); (e.handlers[n] = e.handlers[n] || []).push({ space: "$" + s.join("."), f: ev => f.call(e, ev) }); }); return this; }
        off(types) { for (const t of types.split(/\s+/)) this.each((_, e) => { const [n, ...s] = t.split("."), sp = "$" + s.join("."); for (const k of n ? [n] : Object.keys(e.handlers)) e.handlers[k] = (e.handlers[k] || []).filter(h => s.length ? h.space !== sp : h.space[0] !== "$"); }); return this; }
        bind(t, f) { return this.on(t, f); }
        unbind(t) { return this.off(t); }
        resize(f) { return f ? this.on("resize", f) : this.trigger("resize"); }
        click(f) { return f ? this.on("click", f) : this.trigger("click"); }
        trigger(t) { return this.each((_, e) => fire(e, t.split(".")[0], {})); }
        closest(s) { const out = []; this.each((_, e) => { for (let p = e; p instanceof Element; p = p.parentNode) if (is(p, s)) { if (!out.includes(p)) out.push(p); break; } }); return new JQ(out); }
        parents(s) { const out = []; this.each((_, e) => { for (let p = e.parentNode; p instanceof Element; p = p.parentNode) if (!s || is(p, s)) out.push(p); }); return new JQ(out); }
        parent() { return new JQ(this.els().map(e => e.parentNode).filter(e => e)); }
        children(s) { return new JQ([].concat(...this.els().map(e => e.childNodes)).filter(e => !s || is(e, s))); }
        find(s) { return new JQ([].concat(...this.els().map(e => find(e, s)))); }
        is(s) { return this.els().some(e => is(e, s)); }
        remove() { return this.each((_, e) => e.remove()); }
        empty() { return this.each((_, e) => { e.textContent = ""; }); }
        data(k, v) { if (v === undefined) return this.length ? (this[0].data_ || {})[k] : undefined; return this.each((_, e) => { (e.data_ = e.data_ || {})[k] = v; }); }
        show() { return this.each((_, e) => { e.shown_ = true; }); }
        hide() { return this.each((_, e) => { e.shown_ = false; }); }
        modal() { return this.each((_, e) => { document.body.appendChild(e); e.shown_ = true; }); }
        ready(f) { f.call(document, $); return this; }
        [Symbol.iterator]() { let i = 0; return { next: () => i < this.length ? { value: this[i++], done: false } : { value: undefined, done: true } }; }
    }
    const $ = function (x) {
        if (x instanceof JQ) return x;
        if (typeof x === "function") { x($); return new JQ([document]); }
        if (typeof x === "string") return new JQ(/^\s*</.test(x) ? parse(x) : find(document, x));
        return new JQ(x ? (Array.isArray(x) ? x : [x]) : []);
    };
    $.fn = JQ.prototype;
    $.each = (xs, f) => { if (Array.isArray(xs) || xs instanceof JQ) { for (let i = 0; i < xs.length; i++) if (f.call(xs[i], i, xs[i]) === false) break; } else for (const k in xs) if (f.call(xs[k], k, xs[k]) === false) break; return xs; };
    $.map = (xs, f) => Array.isArray(xs) ? [].concat(...xs.map((x, i) => f(x, i))) : [].concat(...Object.keys(xs).map(k => f(xs[k], k)));
    $.grep = (xs, f) => xs.filter(f);
    $.inArray = (x, xs) => xs.indexOf(x);
    $.extend = (...xs) => Object.assign(...(xs[0] === true ? xs.slice(1) : xs));
    $.isArray = Array.isArray;
    $.noop = () => {};
    $.isFunction = f => typeof f === "function";
    $.trim = t => String(t).trim();
    lacking(JQ.prototype, "add addBack after animate before blur change clone contents dblclick delay delegate dequeue detach fadeIn fadeOut filter finish focus has hover index innerHeight insertAfter insertBefore keydown keyup last load map mousedown mousemove mouseover mouseup next nextAll not offset offsetParent one outerHeight parentsUntil position prev prop pushStack queue removeData removeProp replaceAll replaceWith scroll scrollLeft scrollTop select serialize siblings slice slideDown slideUp stop submit toArray toggle toggleClass triggerHandler undelegate unwrap val wrap wrapAll wrapInner dialog end prependTo", "jQuery.");
    lacking($, "ajax Deferred when proxy get getJSON getScript post parseJSON parseHTML type isPlainObject isNumeric isEmptyObject isWindow merge makeArray unique now contains data removeData error globalEval queue", "$.");
    return $;
}

/* ----------------------------------------------------------- d3 (3.5.6) */
function d3For(document, window) {
    const d3 = { version: "3.5.6", event: null };
    const call = (v, node, i, j) => typeof v === "function" ? v.call(node, node.__data__, i, j || 0) : v;

    class Selection extends Array {
        static get [Symbol.species]() { return Array; }
        each(f) { this.forEach((g, j) => g.forEach((n, i) => { if (n) f.call(n, n.__data__, i, j); })); return this; }
        call(f, ...rest) { f(this, ...rest); return this; }
        node() { for (const g of this) for (const n of g) if (n) return n; return null; }
        nodes() { return [].concat(...Array.from(this, g => Array.from(g).filter(n => n))); }
        size() { return this.nodes().length; }
        empty() { return !this.node(); }
        select(s) {
            return make(Array.from(this, g => group(Array.from(g, (n, i) => {
                if (!n) return null;
                const c = typeof s === "function" ? s.call(n, n.__data__, i) : find(n, s)[0] || null;
                if (c && "__data__" in n) c.__data__ = n.__data__;
                return c;
            }), g.parentNode)));
        }
        selectAll(s) {
            const out = [];
            this.each(function (d, i) { out.push(group(typeof s === "function" ? Array.from(s.call(this, d, i)) : find(this, s), this)); });
            return make(out);
        }
        filter(f) { return make(Array.from(this, g => group(Array.from(g).filter((n, i) => n && (typeof f === "function" ? f.call(n, n.__data__, i) : is(n, f))), g.parentNode))); }
        _append(name, before) {
            return this.select(function (d, i) {
                const c = typeof name === "function" ? name.call(this, d, i) : new Element(name);
                const b = typeof before === "function" ? before.call(this, d, i) : before ? find(this, before)[0] : null;
                return this.insertBefore(c, b || null);
            });
        }
        append(name) { return this._append(name); }
        insert(name, before) { return this._append(name, before); }
        remove() { return this.each(function () { this.remove(); }); }
        _set(n, v, get, set) {
            if (n && typeof n === "object") { for (const k in n) this._set(k, n[k], get, set); return this; }
            if (v === undefined) { const e = this.node(); return e ? get(e, n) : null; }
            return this.each(function (d, i, j) { set(this, n, call(v, this, i, j)); });
        }
        attr(n, v) { return arguments.length < 2 && typeof n !== "object" ? this._set(n, undefined, (e, k) => e.getAttribute(k)) : this._set(n, v, null, (e, k, x) => x === null ? e.removeAttribute(k) : e.setAttribute(k, x)); }
        style(n, v) { return arguments.length < 2 && typeof n !== "object" ? this._set(n, undefined, (e, k) => k in e.css ? e.css[k] : k === "width" ? "80px" : "") : this._set(n, v, null, (e, k, x) => { if (x === null) delete e.css[k]; else e.css[k] = x; }); }
        property(n, v) { return arguments.length < 2 && typeof n !== "object" ? this._set(n, undefined, (e, k) => e[k]) : this._set(n, v, null, (e, k, x) => { e[k] = x; }); }
        classed(n, v) { if (arguments.length < 2) { const e = this.node(); return !!e && n.split(/\s+/).every(c => e.classes.includes(c)); } return this.each(function (d, i) { const x = call(v, this, i); n.split(/\s+/).forEach(c => x ? this.classList.add(c) : this.classList.remove(c)); }); }
        text(v) { if (!arguments.length) { const e = this.node(); return e && e.textContent; } return this.each(function (d, i) { this.textContent = call(v, this, i); }); }
        html(v) { if (!arguments.length) { const e = this.node(); return e && e.innerHTML; } return this.each(function (d, i) { this.innerHTML = call(v, this, i); }); }
        datum(v) { if (!arguments.length) { const e = this.node(); return e && e.__data__; } return this.each(function (d, i) { this.__data__ = call(v, this, i); }); }
        on(type, f) {
            if (arguments.length < 2) { const e = this.node(), h = e && (e.handlers[type.split(".")[0]] || [])[0]; return h && h.raw; }
            return this.each(function (d, i) {
                handle(this, type, f && (ev => { const was = d3.event; d3.event = ev; try { f.call(this, this.__data__, i); } finally { d3.event = was; } }));
            });
        }
        data(values, key) {
            if (!arguments.length) return this[0] && Array.from(this[0], n => n && n.__data__);
            const upd = [], ent = [], exi = [];
            this.forEach((g, j) => {
                const vs = Array.from(typeof values === "function" ? values.call(g.parentNode, g.parentNode.__data__, j) : values);
                const u = group(new Array(vs.length).fill(null), g.parentNode), e = group(new Array(vs.length).fill(null), g.parentNode), x = group([], g.parentNode);
                const old = Array.from(g);
                const keyed = key && old.map((n, i) => n && String(key.call(n, n.__data__, i)));
                const used = new Set();
                vs.forEach((v, i) => {
                    const at = key ? keyed.findIndex((k, p) => k === String(key.call(g.parentNode, v, i)) && !used.has(p)) : i < old.length && old[i] ? i : -1;
                    if (at >= 0) { used.add(at); u[i] = old[at]; u[i].__data__ = v; } else e[i] = { __data__: v };
                });
                old.forEach((n, i) => { if (n && !used.has(i)) x.push(n); });
                upd.push(u); ent.push(e); exi.push(x);
            });
            const update = make(upd);
            update.enter = () => entering(ent, upd);
            update.exit = () => make(exi);
            return update;
        }
        sort() { return this; }
        order() { return this; }
        transition() { return this; }
        interrupt() { return this; }
        duration() { return this; }
        delay() { return this; }
        ease() { return this; }
        [Symbol.toPrimitive]() { return "[selection]"; }
    }
    function group(nodes, parent) { const g = nodes; g.parentNode = parent; return g; }
    function make(groups) { const s = new Selection(); for (const g of groups) s.push(g); return s; }
    function entering(ent, upd) {
        const add = (name, before) => make(ent.map((g, j) => group(g.map((x, i) => {
            if (!x) return null;
            const p = g.parentNode, c = typeof name === "function" ? name.call(p, x.__data__, i) : new Element(name);
            c.__data__ = x.__data__;
            p.insertBefore(c, before ? find(p, before)[0] : null);
            upd[j][i] = c;             /* as in version 3 */
            return c;
        }), g.parentNode)));
        return { append: n => add(n), insert: (n, b) => add(n, b), size: () => [].concat(...ent).filter(x => x).length, empty: () => !ent.some(g => g.some(x => x)),
                 select: f => add(function (d, i) { return f.call(this, d, i); }), call: function (f) { f(this); return this; } };
    }
    d3.select = x => make([group([typeof x === "string" ? find(document, x)[0] || null : x], document)]);
    d3.selectAll = x => make([group(typeof x === "string" ? find(document, x) : Array.from(x), document)]);
    d3.selection = () => d3.select(document);

    d3.min = (a, f) => { let r; for (const x of f ? a.map(f) : a) if (x !== null && x !== undefined && !(x > r || x === r || Number.isNaN(x)) ) r = r === undefined || x < r ? x : r; return r; };
    d3.max = (a, f) => { let r; for (const x of f ? a.map(f) : a) if (x !== null && x !== undefined && !Number.isNaN(x)) r = r === undefined || x > r ? x : r; return r; };
    d3.extent = (a, f) => [d3.min(a, f), d3.max(a, f)];
    d3.sum = (a, f) => (f ? a.map(f) : a).reduce((x, y) => x + +y, 0);
    d3.mean = (a, f) => a.length ? d3.sum(a, f) / a.length : undefined;
    d3.range = (a, b, s) => { if (b === undefined) { b = a; a = 0; } s = s || 1; const out = []; for (let x = a; s > 0 ? x < b : x > b; x += s) out.push(x); return out; };
    d3.round = (x, n) => n ? Math.round(x * (n = Math.pow(10, n))) / n : Math.round(x);
    d3.ascending = (a, b) => a < b ? -1 : a > b ? 1 : a >= b ? 0 : NaN;
    d3.descending = (a, b) => b < a ? -1 : b > a ? 1 : b >= a ? 0 : NaN;
    d3.keys = o => Object.keys(o);
    d3.values = o => Object.keys(o).map(k => o[k]);
    d3.entries = o => Object.keys(o).map(k => ({ key: k, value: o[k] }));
    d3.merge = a => [].concat(...a);
    d3.functor = v => typeof v === "function" ? v : () => v;
    d3.identity = x => x;
    d3.bisector = f => {
        const acc = f.length === 1 ? (d, x) => d3.ascending(f(d), x) : f;
        return { left: (a, x, lo, hi) => { lo = lo || 0; if (hi === undefined) hi = a.length; while (lo < hi) { const m = lo + hi >>> 1; if (acc(a[m], x) < 0) lo = m + 1; else hi = m; } return lo; },
                 right: (a, x, lo, hi) => { lo = lo || 0; if (hi === undefined) hi = a.length; while (lo < hi) { const m = lo + hi >>> 1; if (acc(a[m], x) > 0) hi = m; else lo = m + 1; } return lo; } };
    };
    const bis = d3.bisector(x => x);
    d3.bisectLeft = bis.left; d3.bisectRight = d3.bisect = bis.right;
    d3.format = s => x => { const m = /\.(\d+)f/.exec(s); return m ? (+x).toFixed(+m[1]) : String(x); };
    d3.rebind = (t, s, ...ms) => { for (const m of ms) t[m] = (...a) => { const r = s[m](...a); return r === s ? t : r; }; return t; };
    d3.dispatch = (...ts) => { const d = {}, hs = {}; for (const t of ts) d[t] = (...a) => { for (const k in hs) if (k.split(".")[0] === t && hs[k]) hs[k](...a); }; d.on = (t, f) => { hs[t] = f; return d; }; return d; };
    d3.timer = f => f();
    d3.mouse = node => [d3.event.at[0], d3.event.at[1]];

    d3.scale = {};
    d3.scale.linear = function () {
        const mk = (dom, ran, clamped) => {
            const span = (a, b, x) => b - a ? (x - a) / (b - a) : 0;
            const map = (from, to, x) => {
                let i = 0;
                const up = from[from.length - 1] >= from[0];
                while (i < from.length - 2 && i < to.length - 2 && (up ? x >= from[i + 1] : x <= from[i + 1])) i++;
                let t = span(from[i], from[i + 1], x);
                if (clamped) t = Math.max(0, Math.min(1, t));
                return to[i] * (1 - t) + to[i + 1] * t;
            };
            const s = x => map(dom, ran, x);
            s.invert = y => map(ran, dom, y);
            s.domain = function (d) { if (!arguments.length) return dom.slice(); dom = Array.from(d, Number); return s; };
            s.range = function (r) { if (!arguments.length) return ran.slice(); ran = Array.from(r); return s; };
            s.rangeRound = r => s.range(r);
            s.clamp = function (c) { if (!arguments.length) return clamped; clamped = c; return s; };
            s.interpolate = () => s;
            s.nice = () => s;
            s.ticks = () => [dom[0], (dom[0] + dom[1]) / 2, dom[1]];
            s.tickFormat = () => String;
            s.copy = () => mk(dom.slice(), ran.slice(), clamped);
            return s;
        };
        return mk([0, 1], [0, 1], false);
    };
    d3.scale.ordinal = function () {
        const mk = (dom, ran) => {
            const s = x => { let i = dom.indexOf(String(x)); if (i < 0) i = dom.push(String(x)) - 1; return ran.length ? ran[i % ran.length] : undefined; };
            s.domain = function (d) { if (!arguments.length) return dom.slice(); dom = []; for (const x of d) if (!dom.includes(String(x))) dom.push(String(x)); return s; };
            s.range = function (r) { if (!arguments.length) return ran.slice(); ran = Array.from(r); return s; };
            s.copy = () => mk(dom.slice(), ran.slice());
            return s;
        };
        return mk([], []);
    };
    const C10 = ["#1f77b4", "#ff7f0e", "#2ca02c", "#d62728", "#9467bd", "#8c564b", "#e377c2", "#7f7f7f", "#bcbd22", "#17becf"];
    const L10 = ["#aec7e8", "#ffbb78", "#98df8a", "#ff9896", "#c5b0d5", "#c49c94", "#f7b6d2", "#c7c7c7", "#dbdb8d", "#9edae5"];
    d3.scale.category10 = () => d3.scale.ordinal().range(C10);
    d3.scale.category20 = () => d3.scale.ordinal().range([].concat(...C10.map((c, i) => [c, L10[i]])));

    d3.svg = {};
    d3.svg.axis = function () {
        let scale = d3.scale.linear(), orient = "bottom";
        const opts = {};
        const axis = sel => {
            sel.each(function () {
                const was = find(this, ".domain")[0];    /* wherever below it is */
                const owner = was ? was.parentNode : this;
                if (!was) { const t = new Element("path"); t.className = "domain"; this.appendChild(t); }
                owner.axis_ = { domain: scale.domain(), range: scale.range() };
            });
        };
        axis.scale = function (s) { if (!arguments.length) return scale; scale = s; return axis; };
        axis.orient = function (o) { if (!arguments.length) return orient; orient = o; return axis; };
        for (const k of ["ticks", "tickValues", "tickFormat", "tickSize", "innerTickSize", "outerTickSize", "tickPadding", "tickSubdivide"])
            axis[k] = function (v) { if (!arguments.length) return opts[k]; opts[k] = v; return axis; };
        return axis;
    };
    d3.svg.brush = function () {
        let x = null, extent = [0, 0];
        const hs = {};
        const brush = sel => { sel.each(function () {
            this.brush_ = brush;
            if (!this.childNodes.length) for (const c of ["background", "extent"]) { const r = new Element("rect"); r.className = c; this.appendChild(r); }
            this.extent_ = extent.slice();
        }); };
        brush.x = function (s) { if (!arguments.length) return x; x = s; return brush; };
        brush.extent = function (e) { if (!arguments.length) return extent.slice(); extent = [+e[0], +e[1]].sort((a, b) => a - b); return brush; };
        brush.empty = () => extent[0] === extent[1];
        brush.clear = () => { extent = [x.domain()[0], x.domain()[0]]; return brush; };
        brush.event = () => { for (const t of ["brushstart", "brush", "brushend"]) if (hs[t]) hs[t](); };
        brush.on = function (t, f) { if (arguments.length < 2) return hs[t]; hs[t] = f; return brush; };
        brush.user_ = (g, path) => {   /* the user drags: the extents on the way */
            const say = t => { if (hs[t]) { d3.event = { type: t, target: brush }; hs[t].call(g, g.__data__, 0); d3.event = null; } };
            path.forEach((e, i) => {
                extent = e.slice(); g.extent_ = e.slice();
                if (i === 0) say("brushstart");
                say("brush");
            });
            say("brushend");
        };
        return brush;
    };
    d3.behavior = {};
    d3.behavior.zoom = function () {
        let view = { x: 0, y: 0, k: 1 }, x0 = null, x1 = null, ext = [0, Infinity], centre = null;
        const hs = {};
        const rescale = () => { if (x1) x1.domain(x0.range().map(v => (v - view.x) / view.k).map(x0.invert)); };
        const to = s => { view.k = Math.max(ext[0], Math.min(ext[1], s)); };
        const zoom = sel => { sel.each(function () { this.zoom_ = zoom; }); };
        zoom.translate = function (t) { if (!arguments.length) return [view.x, view.y]; view = { x: +t[0], y: +t[1], k: view.k }; rescale(); return zoom; };
        zoom.scale = function (s) { if (!arguments.length) return view.k; view = { x: view.x, y: view.y, k: null }; to(+s); rescale(); return zoom; };
        zoom.scaleExtent = function (e) { if (!arguments.length) return ext; ext = e ? [+e[0], +e[1]] : [0, Infinity]; return zoom; };
        zoom.center = function (c) { if (!arguments.length) return centre; centre = c && [+c[0], +c[1]]; return zoom; };
        zoom.size = () => zoom;
        zoom.duration = () => zoom;
        zoom.x = function (s) { if (!arguments.length) return x1; x1 = s; x0 = s.copy(); view = { x: 0, y: 0, k: 1 }; return zoom; };
        zoom.y = function () { view = { x: 0, y: 0, k: 1 }; return zoom; };
        zoom.on = function (t, f) { if (arguments.length < 2) return hs[t]; hs[t] = f; return zoom; };
        zoom.event = () => zoom;
        const say = (node, t) => { if (hs[t]) { d3.event = { type: t, scale: view.k, translate: [view.x, view.y], sourceEvent: {} }; hs[t].call(node, node.__data__, 0); d3.event = null; } };
        zoom.user_ = (node, steps) => {    /* one gesture: each step multiplies the scale about a point, or moves */
            say(node, "zoomstart");
            for (const s of steps) {
                if (s.by) { const p = centre ? centre[0] : s.at, l = (p - view.x) / view.k; to(view.k * s.by); view.x += p - (l * view.k + view.x); } else view.x += s.move;
                rescale();
                say(node, "zoom");
            }
            say(node, "zoomend");
        };
        return zoom;
    };
    d3.tip = function () {
        let html = () => "", cls = {};
        const tip = sel => {};
        tip.text_ = null;
        tip.html = function (f) { if (!arguments.length) return html; html = typeof f === "function" ? f : () => f; return tip; };
        tip.attr = function (n, v) { if (arguments.length < 2) return cls[n]; cls[n] = v; return tip; };
        tip.style = function (n, v) { if (arguments.length < 2) return n === "width" ? "80px" : ""; return tip; };
        tip.show = function (...a) { tip.text_ = html.apply(this, a); window.tip_ = tip.text_; return tip; };
        tip.hide = function () { tip.text_ = null; window.tip_ = null; return tip; };
        for (const k of ["offset", "direction", "rootElement", "destroy"]) tip[k] = () => tip;
        return tip;
    };
    d3.tip_ = d3.tip;
    lacking(Selection.prototype, "attrTween styleTween tween", "selection.");
    lacking(d3, "quantile median variance deviation shuffle permute pairs zip transpose nest map set bisect xhr text json xml html csv tsv geo geom layout time random interpolate interpolateNumber interpolateRound interpolateRgb interpolateObject interpolateArray interpolateString interpolateZoom color rgb hsl hcl lab ns requote touches touch transition ease transform formatPrefix locale", "d3.");
    lacking(d3.scale, "log pow sqrt quantize quantile threshold identity category20b category20c", "d3.scale.");
    lacking(d3.svg, "line area arc chord diagonal symbol", "d3.svg.");
    lacking(d3.behavior, "drag", "d3.behavior.");
    return d3;
}

/* -------------------------------------------------------- Dygraph (1.1) */
function dygraphFor(window) {
    class Dygraph {
        constructor(div, file, options) {
            this.div_ = div; this.attrs_ = Object.assign({}, options); this.rawData_ = file; this.selections_ = 0;
            window.graphs_.push(this);
        }
        getOption(n) { return this.attrs_[n]; }
        numRows() { return this.rawData_.length; }
        numColumns() { return this.rawData_.length ? this.rawData_[0].length : this.attrs_.labels.length; }
        getValue(r, c) { return this.rawData_[r][c]; }
        getLabels() { return this.attrs_.labels.slice(); }
        xAxisExtremes() { return this.rawData_.length ? [this.rawData_[0][0], this.rawData_[this.rawData_.length - 1][0]] : [0, 1]; }
        xAxisRange() { return this.attrs_.dateWindow ? this.attrs_.dateWindow : this.xAxisExtremes(); }
        yAxisRange() {
            if (this.attrs_.valueRange) return this.attrs_.valueRange.slice();
            const vs = [].concat(...this.rawData_.map(r => r.slice(1))).filter(v => v !== null && v !== undefined && !Number.isNaN(v));
            return vs.length ? [Math.min(...vs), Math.max(...vs)] : [0, 1];
        }
        updateOptions(o) { Object.assign(this.attrs_, o); }
        resize(w, h) { if (w !== undefined) { this.width_ = w; this.height_ = h; } }
        ready(f) { f(this); }
        destroy() { this.destroyed_ = true; }
    }
    lacking(Dygraph.prototype, "isZoomed toDomCoords toDomXCoord toDomYCoord toDataCoords toDataXCoord toDataYCoord toPercentXCoord toPercentYCoord eventToDomCoords getColors getArea visibility setVisibility setSelection getSelection clearSelection getHighlightSeries isSeriesLocked yAxisRanges yAxisExtremes rollPeriod adjustRoll resetZoom setAnnotations annotations numAxes getPropertiesForSeries indexFromSetName getOptionForAxis getRowForX setColors_ start_ predraw_ drawGraph_", "Dygraph.");
    Dygraph.synchronize = function (...a) {
        let gs = a[0], opts = a[1] || {};
        if (!Array.isArray(gs)) { gs = a.filter(x => x instanceof Dygraph); opts = {}; }
        const s = { graphs: gs.slice(), opts: opts, live: true, detach: () => { s.live = false; } };
        window.syncs_.push(s);
        return s;
    };
    return Dygraph;
}

/* --------------------------------------------------------------- a page */
function open() {
    const document = new Element("html");
    Element.document = document;
    document.body = document.appendChild(new Element("body"));
    document.documentElement = document;
    document.getElementById = id => find(document, "#" + id)[0] || null;
    document.createElement = t => new Element(t);
    document.createElementNS = (_, t) => new Element(t);
    const window = new Element("window");
    window.document = document; window.innerWidth = 1000; window.graphs_ = []; window.syncs_ = []; window.tip_ = null;
    return { document, window, $: jQueryFor(document, window), d3: d3For(document, window), Dygraph: dygraphFor(window) };
}

module.exports = { UNSUPPORTED, Element, open, parse, find, fire, is, wide };
