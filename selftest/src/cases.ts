// Small functions for testing the condition generator: the Good ones meet the specification in ../run.mjs, the Bad ones do not.

// ---- number of positive entries
export function countGood1(xs: number[]) {
    let n = 0;
    for (const x of xs) if (x > 0) n++;
    return n;
}
export function countGood2(xs: number[]) {
    return xs.filter((x) => x > 0).length;
}
export function countGood3(xs: number[]) {
    let n = 0;
    for (let i = 0; i < xs.length; i++) {
        if (xs[i] <= 0) continue;
        n += 1;
    }
    return n;
}
export function countBad1(xs: number[]) {
    let n = 0;
    for (const x of xs) if (x >= 0) n++;
    return n;
}
export function countBad2(xs: number[]) {
    let n = 0;
    for (let i = 1; i < xs.length; i++) if (xs[i] > 0) n++;
    return n;
}
export function countBad3(xs: number[]) {
    let n = 0;
    for (const x of xs) {
        if (x > 0) n++;
        else if (x < -1000000) break;
    }
    return n;
}

// ---- every entry but the one at a position
export function dropGood1(xs: number[], at: number) {
    return xs.filter((_, i) => i !== at);
}
export function dropGood2(xs: number[], at: number) {
    return [...xs.slice(0, at), ...xs.slice(at + 1)];
}
export function dropGood3(xs: number[], at: number) {
    const out = [...xs];
    out.splice(at, 1);
    return out;
}
export function dropBad1(xs: number[], at: number) {
    return xs.filter((x) => x !== xs[at]);
}
export function dropBad2(xs: number[], at: number) {
    return [...xs.slice(0, at), ...xs.slice(at + 2)];
}
export function dropBad3(xs: number[], at: number) {
    xs.splice(at, 1);
    return xs;
}

// ---- first position of a value, or -1
export function firstGood1(xs: number[], v: number) {
    return xs.findIndex((x) => x === v);
}
export function firstGood2(xs: number[], v: number) {
    for (let i = 0; i < xs.length; i++) if (xs[i] === v) return i;
    return -1;
}
export function firstGood3(xs: number[], v: number) {
    return xs.indexOf(v);
}
export function firstBad1(xs: number[], v: number) {
    return xs.lastIndexOf(v);
}
export function firstBad2(xs: number[], v: number) {
    for (let i = 0; i < xs.length - 1; i++) if (xs[i] === v) return i;
    return -1;
}
export function firstBad3(xs: number[], v: number) {
    let r = -1;
    for (let i = 0; i < xs.length; i++) if (xs[i] === v) r = i;
    return r;
}

// ---- a number forced between two limits
export function clampGood1(n: number, lo: number, hi: number) {
    return Math.min(Math.max(n, lo), hi);
}
export function clampGood2(n: number, lo: number, hi: number) {
    if (n < lo) return lo;
    return n > hi ? hi : n;
}
export function clampBad1(n: number, lo: number, hi: number) {
    return Math.max(Math.min(n, lo), hi);
}
export function clampBad2(n: number, lo: number, hi: number) {
    if (n < lo) return lo;
    return n > hi ? hi - 1 : n;
}

// ---- settings with one of them replaced, the others and the given object untouched
type Settings = Record<string, number>;
export function setGood1(o: Settings, key: string, v: number) {
    return { ...o, [key]: v };
}
export function setGood2(o: Settings, key: string, v: number) {
    return Object.assign({}, o, { [key]: v });
}
export function setBad1(o: Settings, key: string, v: number) {
    o[key] = v;
    return o;
}
export function setBad2(o: Settings, key: string, v: number) {
    return { [key]: v, ...o };
}

// ---- what is waited for is of the latest request
export function latestGood1(fetch: (n: number) => Promise<number>) {
    let asked = 0;
    let shown = -1;
    return {
        async ask(n: number) {
            const mine = ++asked;
            const r = await fetch(n);
            if (mine === asked) shown = r;
        },
        shown: () => shown,
    };
}
export function latestBad1(fetch: (n: number) => Promise<number>) {
    let shown = -1;
    return {
        async ask(n: number) {
            shown = await fetch(n);
        },
        shown: () => shown,
    };
}

// ---- the name of a nested value, or a default
interface Node {
    child?: { name?: string };
}
export function nameGood1(n: Node | undefined) {
    return n?.child?.name ?? 'none';
}
export function nameGood2(n: Node | undefined) {
    if (!n || !n.child) return 'none';
    const { name } = n.child;
    return name === undefined ? 'none' : name;
}
export function nameBad1(n: Node | undefined) {
    return n?.child?.name || 'none';
}
export function nameBad2(n: Node | undefined) {
    return n!.child?.name ?? 'none';
}
