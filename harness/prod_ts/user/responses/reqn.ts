import { Response } from "../implementation/responses/reqn";
import { Protocol } from "../implementation/responses";
import { Scope } from "../implementation/scope";
import { serve, FIXED } from "../../rig";

export function response(request: Protocol.ReqN, scope: Scope): Promise<Response> {
    return serve(2, request, scope, Protocol, (out, what, to) => {
        return new Response(out === 1 ? new Protocol.Err({ what }) : out === 2 ? new Protocol.ResB({ what }) : new Protocol.ResA({ what }));
    });
}
