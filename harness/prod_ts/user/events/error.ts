import { IServerError } from "clibri";
import { Identification, Filter, Producer, Context, ProducerError } from "../implementation/events";
import { rig } from "../../rig";

export function emit(error: ProducerError | IServerError, context: Context, producer: Producer, consumer: Identification | undefined, filter: Filter | undefined): Promise<void> {
    rig.log.push(["E", consumer === undefined ? "" : consumer.uuid()]);
    return rig.mode.err === 1 ? Promise.reject(new Error("refused")) : Promise.resolve();
}
