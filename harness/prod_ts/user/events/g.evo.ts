import { Filter, Producer, Context, Protocol } from "../implementation/events";
import { Output } from "../implementation/events/g.evo";
import { enter, finish, FIXED } from "../../rig";

export function emit(event: Protocol.G.EvO, filter: Filter, context: Context, producer: Producer): Promise<Output> {
    const what = event.what, out = event.act >> 4, [to, gate] = enter(21, what, event.to, event.act & 15, undefined, filter, producer, Protocol);
    return finish(out, gate, () => {
        let o = new Output();
        if (out === 4) o = o.broadcast(to).BcY(new Protocol.BcY({ what }));
        return o;
    });
}
