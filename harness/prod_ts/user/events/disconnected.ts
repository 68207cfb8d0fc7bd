import { Identification, Filter, Producer, Context, Protocol } from "../implementation/events";
import { Output } from "../implementation/events/disconnected";
import { enter, finish, rig } from "../../rig";

export function emit(consumer: Identification, filter: Filter, context: Context, producer: Producer): Promise<Output> {
    const [out, rcp, act] = rig.mode.dis, what = 90 + Number(consumer.uuid().slice(1)), [to, gate] = enter(11, what, rcp, act, consumer, filter, producer, Protocol);
    return finish(out, gate, () => {
        let o = new Output();
        if (out !== 6) o = o.broadcast(to).BcY(new Protocol.BcY({ what }));
        if (out < 6) o = o.broadcast(to).BcX(new Protocol.BcX({ what }));
        return o;
    });
}
