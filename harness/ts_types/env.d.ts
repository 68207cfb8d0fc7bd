declare function BigInt(value: any): bigint;
interface BigInt { toString(radix?: number): string; valueOf(): bigint; toLocaleString(): string; }
type BufferEncoding = string;
interface SharedArrayBuffer { readonly byteLength: number; slice(begin?: number, end?: number): SharedArrayBuffer; }
interface Buffer extends Uint8Array { [k: string]: any; slice(a?: number, b?: number): Buffer; buffer: any; }
declare var Buffer: { (...a: any[]): Buffer; new (...a: any[]): Buffer; prototype: Buffer; from(...a: any[]): Buffer; alloc(n: number, ...a: any[]): Buffer; allocUnsafe(n: number): Buffer; concat(l: ReadonlyArray<any>, n?: number): Buffer; isBuffer(o: any): o is Buffer; byteLength(s: any, e?: string): number; [k: string]: any; };
declare var console: { log(...a: any[]): void; error(...a: any[]): void; warn(...a: any[]): void; };
interface TextEncoder { encode(s?: string): Uint8Array; } declare var TextEncoder: { new(): TextEncoder };
interface TextDecoder { decode(b?: any): string; } declare var TextDecoder: { new(...a: any[]): TextDecoder };
interface Uint8ArrayConstructor { new (): Uint8Array; }
interface Window { [k: string]: any; }
