// What the handlers of the application do; everything they see is recorded.
export const FIXED = ["u1", "u2", "u3"];
const SUBSETS = [[], ["u1"], ["u2"], ["u3"], ["u1", "u2"], ["u2", "u1"], ["u3", "u1"], ["u2", "u3"], ["u3", "u2", "u1"], ["?", "u1"], ["u1", "u1"]];
export type Mode = { con: number[]; dis: number[]; err: number };
export const rig: { log: any[]; gates: Array<[number, () => void]>; mode: Mode; assigned: any } = { log: [], gates: [], mode: { con: [0, 0, 0], dis: [0, 2, 0], err: 0 }, assigned: undefined };
const show = (k: any, f: string[]) => (k === undefined ? "-" : f.map((x) => (k[x] === undefined ? "" : String(k[x]))).join(","));
export const ident = (i: any) => show(i.getKey(), ["id", "name"]) + "|" + show(i.getAssigned(), ["uid", "auth", "level"]);
export function enter(kind: number, what: number, to: number, act: number, own: any, filter: any, producer: any, P: any, deferred?: (cb: () => void) => void): [string[], Promise<void> | undefined] {
    const self = own === undefined ? "u1" : own.uuid(); const k2 = (i: any) => i.getKey() !== undefined && i.getKey().id === 2;
    rig.log.push(["H", kind, what, own === undefined ? "" : self, own === undefined ? "" : ident(own), filter.all().slice().sort().join(), filter.filter(k2).sort().join(), filter.filter((i: any) => i.getAssigned() !== undefined && i.getAssigned().uid === 7).sort().join()]);
    const every = filter.all(), among = (l: string[]) => every.filter((x: string) => l.indexOf(x) < 0).join();
    for (const l of SUBSETS) if (filter.exclude(l).join() !== among(l) || l.length === 1 && filter.except(l[0]).join() !== among(l)) rig.log.push(["selection", l.join()]);
    const A = (uid: any, auth: any, level: any) => new P.AssignedId({ uid, auth, level }), K = (id: number, name: any) => new P.SelfId({ id, name });
    if (own !== undefined) switch (act) {
        case 1: own.key(K(2, undefined), false); break;
        case 2: own.key(K(2, 5), true); break;
        case 13: own.key(K(3, undefined), true); break;
        case 3: own.assign(A(7, undefined, 1), false); break;
        case 4: own.assign(A(undefined, true, 2), false); break;
        case 5: own.assign(A(8, undefined, 3), true); break;
        case 15: own.key(K(0, 0), false); own.assign(A(0, false, 0), false); break;
        case 7: producer.disconnect(self).catch(() => undefined); break;
    }
    const shared = A(7, undefined, 9), key = K(2, 9);
    switch (act) {
        case 6: if (deferred !== undefined) deferred(() => rig.log.push(["deferred", what])); break;
        case 8: producer.destroy(); break;
        case 10: filter.filter((i: any) => { i.assign(shared, false); return true; }); break;
        case 12: filter.filter((i: any) => { if (i.uuid() === "u2") i.key(key, false); return true; }); break;
        case 11: producer.events.ev.emit(new P.Ev({ what: what + 100, to: 0, act: 0 })); break;
        case 14: filter.filter((i: any) => { i.assign(shared, true); i.key(key, true); return true; }); break;
    }
    const list = [() => filter.all(), () => filter.except(self), () => [], () => FIXED.slice(), () => filter.filter(k2), () => filter.exclude([self]), () => filter.exclude(["u1", "u2"])][to]();
    return [list, act === 9 ? new Promise((r) => rig.gates.push([what, () => r(undefined)])) : undefined];
}
export function finish<T>(out: number, gate: Promise<void> | undefined, make: () => T): Promise<T> {
    const end = () => (out === 3 ? Promise.reject(new Error("refused")) : Promise.resolve(make()));
    return gate === undefined ? end() : gate.then(end);
}
export function serve<T>(kind: number, m: any, scope: any, P: any, make: (out: number, what: number, to: string[]) => T): Promise<T> {
    const [to, gate] = enter(kind, m.what, m.to === undefined ? 2 : m.to, m.act & 15, scope.consumer, scope.filter, scope.producer, P, (cb) => scope.deferred(cb));
    return finish(m.act >> 4, gate, () => make(m.act >> 4, m.what, to));
}
