// stands in for xml2js and @rgrove/parse-xml: as much of XML as the messages of the road applications use
export class XmlText { constructor(public text: string) {} }
export class XmlElement {
  children: (XmlElement | XmlText)[] = [];
  constructor(public name: string, public attributes: Record<string, string>) {}
  get text(): string { return this.children.map((c) => c.text).join(""); }
}
const ENT: Record<string, string> = { lt: "<", gt: ">", amp: "&", quot: '"', apos: "'" };
const unescape = (s: string): string => s.replace(/&(#x[0-9a-fA-F]+|#\d+|\w+);?/g, (m, n: string) => {
  if (!m.endsWith(";")) throw new Error("bad entity");
  if (n[0] === "#") return String.fromCodePoint(n[1] === "x" ? parseInt(n.slice(2), 16) : parseInt(n.slice(1), 10));
  const e = ENT[n]; if (e === undefined) throw new Error(`unknown entity ${n}`); return e;
});
export function parseXml(xml: string): { root: XmlElement } {
  const s = xml.replace(/^\uFEFF/, "");
  let i = 0, root: XmlElement | undefined;
  const stack: XmlElement[] = [];
  const add = (t: string): void => { const top = stack[stack.length - 1]; if (!top) { if (t.trim() !== "") throw new Error("text outside the root"); return; } const last = top.children[top.children.length - 1]; if (last instanceof XmlText) last.text += t; else top.children.push(new XmlText(t)); };
  while (i < s.length) {
    const lt = s.indexOf("<", i);
    if (lt === -1) { add(unescape(s.slice(i))); break; }
    if (lt > i) add(unescape(s.slice(i, lt)));
    if (s.startsWith("<!--", lt)) { const e = s.indexOf("-->", lt); if (e < 0) throw new Error("comment not closed"); i = e + 3; continue; }
    if (s.startsWith("<![CDATA[", lt)) { const e = s.indexOf("]]>", lt); if (e < 0) throw new Error("CDATA not closed"); add(s.slice(lt + 9, e)); i = e + 3; continue; }
    if (s.startsWith("<?", lt)) { const e = s.indexOf("?>", lt); if (e < 0) throw new Error("instruction not closed"); if (/^<\?xml\s/i.test(s.slice(lt)) && lt !== 0) throw new Error("declaration is not at the beginning"); i = e + 2; continue; }
    if (s.startsWith("</", lt)) {
      const m = /^<\/([\w:.-]+)\s*>/.exec(s.slice(lt)); if (!m) throw new Error("bad end tag");
      const top = stack.pop(); if (top?.name !== m[1]) throw new Error(`end of ${m[1]} where ${top?.name} is open`);
      i = lt + m[0].length; continue;
    }
    const m = /^<([\w:.-]+)((?:\s+[\w:.-]+\s*=\s*(?:"[^"<]*"|'[^'<]*'))*)\s*(\/?)>/.exec(s.slice(lt));
    if (!m) throw new Error(`bad tag at ${s.slice(lt, lt + 30)}`);
    const attrs: Record<string, string> = {};
    for (const a of m[2]!.matchAll(/([\w:.-]+)\s*=\s*(?:"([^"]*)"|'([^']*)')/g)) { if (a[1]! in attrs) throw new Error(`attribute ${a[1]} twice`); attrs[a[1]!] = unescape(a[2] ?? a[3]!); }
    const el = new XmlElement(m[1]!, attrs);
    const top = stack[stack.length - 1];
    if (top) top.children.push(el); else { if (root) throw new Error("two roots"); root = el; }
    if (m[3] !== "/") stack.push(el);
    i = lt + m[0].length;
  }
  if (stack.length) throw new Error(`${stack[stack.length - 1]!.name} not closed`);
  if (!root) throw new Error("no root");
  return { root };
}
// ---------- xml2js
const toObject = (e: XmlElement): any => {
  const o: any = {};
  if (Object.keys(e.attributes).length) o.$ = { ...e.attributes };
  for (const c of e.children) if (c instanceof XmlElement) (o[c.name] ??= []).push(toObject(c));
  const text = e.children.filter((c) => c instanceof XmlText).map((c) => c.text).join("");
  if (!/^\s*$/.test(text)) o._ = text;
  const ks = Object.keys(o);
  if (ks.length === 0) return text === "" ? "" : text;
  return ks.length === 1 && ks[0] === "_" ? o._ : o;
};
export function parseStringPromise(xml: string): Promise<any> {
  return new Promise((ok) => {
    const s = String(xml);
    if (s.trim() === "") return ok(null);
    const { root } = parseXml(s);
    ok({ [root.name]: toObject(root) });
  });
}
const esc = (s: string): string => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/\r/g, "&#xD;");
const escA = (s: string): string => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/"/g, "&quot;");
const render = (name: string, v: any, pad: string): string => {
  if (v === null || v === undefined || typeof v !== "object") { const t = v === null || v === undefined ? "" : String(v); return t === "" ? `${pad}<${name}/>` : `${pad}<${name}>${esc(t)}</${name}>`; }
  const attrs = Object.entries(v.$ ?? {}).map(([k, x]) => ` ${k}="${escA(String(x))}"`).join("");
  const kids: string[] = [];
  for (const [k, x] of Object.entries<any>(v)) { if (k === "$" || k === "_") continue; for (const y of Array.isArray(x) ? x : [x]) kids.push(render(k, y, `${pad}  `)); }
  const text = v._ === undefined ? "" : esc(String(v._));
  if (kids.length === 0) return text === "" ? `${pad}<${name}${attrs}/>` : `${pad}<${name}${attrs}>${text}</${name}>`;
  return `${pad}<${name}${attrs}>${text}\n${kids.join("\n")}\n${pad}</${name}>`;
};
export class Builder {
  constructor(private readonly o: { headless?: boolean; rootName?: string } = {}) {}
  buildObject(v: any): string {
    const ks = Object.keys(v);
    const [name, x] = ks.length === 1 && (this.o.rootName ?? "root") === "root" ? [ks[0]!, v[ks[0]!]] : [this.o.rootName ?? "root", v];
    return `${this.o.headless ? "" : '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'}${render(name, x, "")}`;
  }
}
