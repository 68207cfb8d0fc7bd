import { Identification, Filter, Producer, Context, Protocol } from "../implementation/events";
import { Output } from "../implementation/events/connected";
import { enter, finish, rig } from "../../rig";

export function emit(consumer: Identification, filter: Filter, context: Context, producer: Producer): Promise<Output> {
    const [out, rcp, act] = rig.mode.con, what = 80 + Number(consumer.uuid().slice(1)), [to, gate] = enter(10, what, rcp, act, consumer, filter, producer, Protocol);
    return finish(out, gate, () => {
        let o = new Output();
        if (out === 4) o = o.broadcast(to).BcX(new Protocol.BcX({ what }));
        return o;
    });
}
