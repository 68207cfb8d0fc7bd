import { Identification, Filter, Producer, Context, Protocol } from "../implementation/events";
import { Output } from "../implementation/events/disconnected";
import { handled } from "../../../rig";

export function emit(consumer: Identification, filter: Filter, context: Context, producer: Producer): Promise<Output> {
    const to = handled("disconnected", 0, consumer, filter, true), key = consumer.getKey();
    return Promise.resolve(new Output().broadcast(to).Left(new Protocol.Left({ id: key === undefined ? 0 : key.id })));
}
