import { Response } from "../implementation/responses/g.h.two";
import { Protocol } from "../implementation/responses";
import { Scope } from "../implementation/scope";
import { handled } from "../../../rig";

export function response(request: Protocol.G.H.Two, scope: Scope): Promise<Response> {
    const what = request.what, to = handled("two", what, scope.consumer, scope.filter, what % 4 === 1);
    switch (what % 4) {
        case 0: return Promise.resolve(new Response(new Protocol.ResA({ what, text: undefined })));
        case 1: return Promise.resolve(new Response(new Protocol.G.H.ResB({ what })).broadcast(to).GHNote(new Protocol.G.H.Note({ what })));
        case 2: return Promise.resolve(new Response(new Protocol.G.H.ResB({ what })));
        default: return Promise.resolve(new Response(new Protocol.G.Err({ what })));
    }
}
