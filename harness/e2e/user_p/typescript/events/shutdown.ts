import { Producer, Context } from "../implementation/events";
import { note } from "../../../rig";

export function emit(context: Context, producer: Producer): Promise<void> { note(0, "shutdown"); return Promise.resolve(); }
