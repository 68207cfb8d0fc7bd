// Stand-in for the npm package `clibri`, which the generated TypeScript code imports and which cannot be fetched here.
// It implements the interfaces as the generated code and the examples use them; transports are driven by the harness.
let _seq = 0;
export function guid(): string { _seq += 1; return "guid-" + _seq; }
export function resetGuid(): void { _seq = 0; }
const _globals: any = {};
export function globals(): any | Error { return _globals; }

export class Subscription {
    constructor(private readonly _name: string, private readonly _destroy: () => void) { }
    public destroy(): void { this._destroy(); }
    public getName(): string { return this._name; }
}
export class Subject<T> {
    private _handlers: Array<(value: T) => any> = [];
    constructor(private readonly _name: string = "") { }
    public subscribe(handler: (value: T) => any): Subscription {
        this._handlers.push(handler);
        return new Subscription(this._name, () => { this._handlers = this._handlers.filter((h) => h !== handler); });
    }
    public emit(value: T): void { this._handlers.slice().forEach((h) => h(value)); }
    public destroy(): void { this._handlers = []; }
    public getName(): string { return this._name; }
}
export type LogSink = (level: string, alias: string, msg: string) => void;
let _sink: LogSink | undefined;
export function setLogSink(sink: LogSink | undefined): void { _sink = sink; }
export enum ELogLevel { VERBOS = 0, DEBUG = 1, ENV = 2, INFO = 3, WARN = 4, ERR = 5 }
export abstract class Logger {
    constructor(protected readonly _alias: string = "") { }
    public abstract clone(alias: string): Logger;
    private _put(level: string, parts: any[]): string { const msg = parts.map(String).join(" "); if (_sink !== undefined) _sink(level, this._alias, msg); return msg; }
    public verb(...parts: any[]): string { return this._put("verb", parts); }
    public debug(...parts: any[]): string { return this._put("debug", parts); }
    public info(...parts: any[]): string { return this._put("info", parts); }
    public warn(...parts: any[]): string { return this._put("warn", parts); }
    public err(...parts: any[]): string { return this._put("err", parts); }
}
export class DefaultLogger extends Logger { public clone(alias: string): Logger { return new DefaultLogger(this._alias + alias); } }

export enum ConsumerErrorHandelingStrategy { Disconnect, EmitError, EmitErrorAndDisconnect, Log }
export enum ProducerIdentificationStrategy { Ignore, Log, Disconnect, EmitError, EmitErrorAndDisconnect }
export interface IOptions { logger?: Logger; consumerErrorHandelingStrategy?: ConsumerErrorHandelingStrategy; producerIndentificationStrategy?: ProducerIdentificationStrategy; }
export class Options {
    public logger: Logger;
    public consumerErrorHandelingStrategy: ConsumerErrorHandelingStrategy;
    public producerIndentificationStrategy: ProducerIdentificationStrategy;
    constructor(options: IOptions) {
        this.logger = options.logger !== undefined ? options.logger : new DefaultLogger("");
        this.consumerErrorHandelingStrategy = options.consumerErrorHandelingStrategy !== undefined ? options.consumerErrorHandelingStrategy : ConsumerErrorHandelingStrategy.EmitErrorAndDisconnect;
        this.producerIndentificationStrategy = options.producerIndentificationStrategy !== undefined ? options.producerIndentificationStrategy : ProducerIdentificationStrategy.Ignore;
    }
}
export interface IServerError extends Error { uuid?: string; }
export interface IServerReceivedEvent { uuid: string; buffer: ArrayBufferLike; }
export abstract class Server {
    public abstract listen(): Promise<void>;
    public abstract send(buffer: ArrayBufferLike, uuid?: string): Promise<void>;
    public abstract disconnect(uuid: string): Promise<void>;
    public abstract shutdown(): Promise<void>;
    public abstract getEvents(): { ready: Subject<void>; shutdown: Subject<void>; error: Subject<IServerError>; connected: Subject<string>; disconnected: Subject<string>; received: Subject<IServerReceivedEvent>; };
}
export abstract class Client {
    public abstract send(buffer: ArrayBufferLike | string): Error | undefined;
    public abstract destroy(): Promise<void>;
    public abstract getEvents(): { data: Subject<ArrayBufferLike>; connected: Subject<void>; disconnected: Subject<void>; error: Subject<Error>; };
}
