import { Filter, Producer, Context, Protocol } from "../implementation/events";
import { Output } from "../implementation/events/tick";
import { heard } from "../../../rig";

export function emit(event: Protocol.Tick, filter: Filter, context: Context, producer: Producer): Promise<Output> {
    const to = filter.all();
    heard("tick", event.what, 0, 0, to);
    return Promise.resolve(new Output().broadcast(to).Tock(new Protocol.Tock({ what: event.what })));
}
