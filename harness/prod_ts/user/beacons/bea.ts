import { Protocol } from "../implementation/beacons";
import { Scope } from "../implementation/scope";
import { serve } from "../../rig";

export function emit(beacon: Protocol.Bea, scope: Scope): Promise<void> {
    return serve(4, beacon, scope, Protocol, () => undefined);
}
