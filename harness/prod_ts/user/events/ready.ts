import { Producer, Context } from "../implementation/events";
import { rig } from "../../rig";

export function emit(context: Context, producer: Producer): Promise<void> {
    rig.log.push(["ready"]);
    return rig.mode.err === 1 ? Promise.reject(new Error("refused")) : Promise.resolve();
}
