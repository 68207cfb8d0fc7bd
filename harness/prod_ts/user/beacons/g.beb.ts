import { Protocol } from "../implementation/beacons";
import { Scope } from "../implementation/scope";
import { serve } from "../../rig";

export function emit(beacon: Protocol.G.Beb, scope: Scope): Promise<void> {
    return serve(5, beacon, scope, Protocol, () => undefined);
}
