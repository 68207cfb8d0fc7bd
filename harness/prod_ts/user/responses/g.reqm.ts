import { Response } from "../implementation/responses/g.reqm";
import { Protocol } from "../implementation/responses";
import { Scope } from "../implementation/scope";
import { serve, FIXED } from "../../rig";

export function response(request: Protocol.G.ReqM, scope: Scope): Promise<Response> {
    return serve(3, request, scope, Protocol, (out, what, to) => {
        let r = new Response(out === 1 ? new Protocol.G.Err({ what }) : out === 0 || out === 4 ? new Protocol.G.ResA({ what }) : new Protocol.ResB({ what }));
        if (out === 4 || out === 2 || out === 5 || out === 7) r = r.broadcast(to).BcX(new Protocol.BcX({ what }));
        if (out === 2 || out === 5) r = r.broadcast(to).GBcZ(new Protocol.G.BcZ({ what }));
        return out === 5 || out === 7 ? r.broadcast(FIXED).BcY(new Protocol.BcY({ what })) : r;
    });
}
