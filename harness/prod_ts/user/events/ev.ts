import { Filter, Producer, Context, Protocol } from "../implementation/events";
import { Output } from "../implementation/events/ev";
import { enter, finish, FIXED } from "../../rig";

export function emit(event: Protocol.Ev, filter: Filter, context: Context, producer: Producer): Promise<Output> {
    const what = event.what, out = event.act >> 4, [to, gate] = enter(20, what, event.to, event.act & 15, undefined, filter, producer, Protocol);
    return finish(out, gate, () => {
        let o = new Output();
        if (out < 6) o = o.broadcast(to).BcX(new Protocol.BcX({ what }));
        if (out === 4 || out === 7) o = o.broadcast(FIXED).GBcZ(new Protocol.G.BcZ({ what }));
        return o;
    });
}
