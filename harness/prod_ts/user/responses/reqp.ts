import { Response } from "../implementation/responses/reqp";
import { Protocol } from "../implementation/responses";
import { Scope } from "../implementation/scope";
import { serve, FIXED } from "../../rig";

export function response(request: Protocol.ReqP, scope: Scope): Promise<Response> {
    return serve(0, request, scope, Protocol, (out, what, to) => {
        return new Response(out === 1 ? new Protocol.Err({ what }) : new Protocol.ResA({ what }));
    });
}
