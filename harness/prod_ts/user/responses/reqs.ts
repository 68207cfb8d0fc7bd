import { Response } from "../implementation/responses/reqs";
import { Protocol } from "../implementation/responses";
import { Scope } from "../implementation/scope";
import { serve, FIXED } from "../../rig";

export function response(request: Protocol.ReqS, scope: Scope): Promise<Response> {
    return serve(1, request, scope, Protocol, (out, what, to) => {
        let r = new Response(out === 1 ? new Protocol.Err({ what }) : new Protocol.ResA({ what }));
        if (out === 0 || out === 4) r = r.broadcast(to).BcX(new Protocol.BcX({ what }));
        return out === 4 || out === 7 ? r.broadcast(FIXED).BcY(new Protocol.BcY({ what })) : r;
    });
}
