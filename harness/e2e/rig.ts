// What the TypeScript agents note.
export const rig: { out: Array<[number, string]> } = { out: [] };
export const note = (agent: number, s: string) => { rig.out.push([agent, s]); };
export const num = (u: string) => Number.parseInt(u.slice(-2), 16);
export const uid = (n: number) => "00000000-0000-0000-0000-0000000000" + (n < 16 ? "0" : "") + n.toString(16);
export function heard(kind: string, what: number, who: number, key: number, to: string[]) { note(0, "H " + kind + " " + what + " " + who + " " + key + " " + to.map(num).sort().join(",")); }
export function handled(kind: string, what: number, own: any, filter: any, all: boolean): string[] {
    const to = all ? filter.all() : [];
    heard(kind, what, num(own.uuid()), own.getKey() === undefined ? 0 : own.getKey().id, to);
    return to;
}
