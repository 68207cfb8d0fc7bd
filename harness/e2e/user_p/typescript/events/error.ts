import { IServerError } from "clibri";
import { Identification, Filter, Producer, Context, ProducerError } from "../implementation/events";
import { note, num } from "../../../rig";

export function emit(error: ProducerError | IServerError, context: Context, producer: Producer, consumer: Identification | undefined, filter: Filter | undefined): Promise<void> {
    note(0, "E " + (consumer === undefined ? 0 : num(consumer.uuid())) + " " + (error as any).message);
    return Promise.resolve();
}
