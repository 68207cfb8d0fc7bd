import { Response } from "../implementation/responses/req";
import { Protocol } from "../implementation/responses";
import { Scope } from "../implementation/scope";
import { handled } from "../../../rig";

export function response(request: Protocol.Req, scope: Scope): Promise<Response> {
    const what = request.what, to = handled("req", what, scope.consumer, scope.filter, what % 2 === 0);
    if (what % 2 === 1) return Promise.resolve(new Response(new Protocol.Err({ what })));
    return Promise.resolve(new Response(new Protocol.ResA({ what, text: request.text })).broadcast(to).Bc(new Protocol.Bc({ what })));
}
