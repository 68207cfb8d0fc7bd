import { Identification, Filter, Producer, Context, Protocol } from "../implementation/events";
import { Output } from "../implementation/events/connected";
import { handled } from "../../../rig";

export function emit(consumer: Identification, filter: Filter, context: Context, producer: Producer): Promise<Output> {
    const to = handled("connected", 0, consumer, filter, true), key = consumer.getKey();
    return Promise.resolve(new Output().broadcast(to).Joined(new Protocol.Joined({ id: key === undefined ? 0 : key.id })));
}
