import { Protocol } from "../implementation/beacons";
import { Scope } from "../implementation/scope";
import { handled } from "../../../rig";

export function emit(beacon: Protocol.Bea, scope: Scope): Promise<void> {
    handled("bea", beacon.what, scope.consumer, scope.filter, false);
    return beacon.what % 2 === 1 ? Promise.reject(new Error("refused")) : Promise.resolve();
}
