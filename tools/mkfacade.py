#!/usr/bin/env python3
"""Writes sim/worlds/core/facade_*.go: one adapter per generated package, so
that the scenarios drive AsyncAPI v2 and v3 code through one interface."""
import os

OPS = [  # name, message type, parameters
    ("text", "Text", 0), ("small", "Small", 0), ("big", "Big", 0), ("ratio", "Ratio", 0), ("ratio32", "Ratio32", 0),
    ("order", "Order", 0), ("list", "List", 0), ("stamp", "Stamp", 0), ("room", "Talk", 1), ("seat", "Talk", 2),
    ("ping", "Ping", 0), ("pingb", "Pingb", 0),
    ("extra", "Extra", 0), ("counts", "Counts", 0), ("meta", "Meta", 0), ("when", "When", 0), ("level", "Level", 0),
    ("label", "Label", 0), ("rows", "Rows", 0), ("union", "Union", 0),
    ("pingd", "Pingd", 0), ("traced", "Traced", 0), ("chat", "Talk", 0), ("mixed", "Mixed", 0), ("knots", "Knots", 0), ("branded", "Branded", 0), ("twisty", "Twisty", 0),
]
V3 = OPS + [("ask", "Ask", 0), ("call", "Call", 0), ("callp", "Callp", 0)]
UP = lambda s: s[0].upper() + s[1:]


def gen(pkg, v):
    ops = V3 if v == 3 else OPS
    # in AsyncAPI v2, the two uses of a channel have the name of its publish operation
    name = lambda o: UP(o) + "Operation" if v == 3 else "Chat" if o == "chatter" else UP(o)
    sub = lambda o: ("SubscribeTo" if v == 3 else "Subscribe") + name(o)
    unsub = lambda o: ("UnsubscribeFrom" if v == 3 else "Unsubscribe") + name(o)
    send = lambda o: ("SendTo" if v == 3 else "Publish") + name(o)
    recv = lambda o: name(o) + ("Received" if v == 3 else "")
    par = {1: "%s.RoomChannelParameters{RoomId: par[0]}" if v == 3 else "%s.Sim2RoomTalkParameters{RoomId: par[0]}",
           2: "%s.SeatChannelParameters{RoomId: par[0], SeatId: par[1]}" if v == 3 else "%s.Sim2Seat100Parameters{RoomId: par[0], SeatId: par[1]}"}
    P = lambda n: (par[n] % pkg + ", ") if n else ""
    app_recv = ops
    user_recv = [("news", "News", 0), ("chatter", "Counts", 0)] + ([("pong", "Pong", 0), ("pongb", "Pongb", 0), ("pongd", "Pongd", 0)] if v == 2 else [])
    user_send = ops
    app_send = [("news", "News", 0, "SendAsNewsOperation" if v == 3 else "PublishNews"),
                ("chatter", "Counts", 0, "SendAsChatterOperation" if v == 3 else "PublishChat"),
                ("pong", "Pong", 0, "SendAsReplyToPingOperation" if v == 3 else "PublishPong"),
                ("pongb", "Pongb", 0, "SendAsReplyToPingbOperation" if v == 3 else "PublishPongb"),
                ("pongd", "Pongd", 0, "SendAsReplyToPingdOperation" if v == 3 else "PublishPongd")]
    if v == 3:
        app_send.append(("answer", "Answer", 0, "SendAsReplyToAskOperation"))
    types = {}
    for l in (ops, user_recv):
        for o in l:
            types[o[0]] = o[1]
    for o in app_send:
        types[o[0]] = o[1]
    o = []
    w = o.append
    w(f"// Code generated by tools/mkfacade.py; DO NOT EDIT.\n\npackage main\n\nimport (\n\t\"context\"\n\t\"fmt\"\n\n\t\"github.com/lerenn/asyncapi-codegen/pkg/extensions\"\n\t\"verifsim/gen/{pkg}\"\n)\n")
    w(f"func init() {{ packages[\"{pkg}\"] = &Package{{Name: \"{pkg}\", V: {v}, NewApp: newApp_{pkg}, NewUser: newUser_{pkg}, New: new_{pkg}, Deref: deref_{pkg}}} }}\n")
    w(f"func new_{pkg}(op string) any {{\n\tswitch op {{")
    for k in sorted(types):
        w(f"\tcase \"{k}\":\n\t\treturn new({pkg}.{types[k]}Message)")
    w("\t}\n\tpanic(\"no operation \" + op)\n}\n")
    w(f"func deref_{pkg}(v any) any {{\n\tswitch t := v.(type) {{")
    for t in sorted(set(types.values())):
        w(f"\tcase *{pkg}.{t}Message:\n\t\treturn *t")
    w("\t}\n\treturn v\n}\n")
    for side, recvs, sends in (("App", app_recv, app_send), ("User", user_recv, [(a, b, c, send(a)) for a, b, c in user_send])):
        T = f"ctl{side}_{pkg}"
        w(f"type {T} struct{{ c *{pkg}.{side}Controller }}\n")
        w(f"func new{side}_{pkg}(bc extensions.BrokerController, o CtlOpts) (Ctl, error) {{")
        w(f"\tvar opts []{pkg}.ControllerOption")
        w(f"\tif o.Logger != nil {{\n\t\topts = append(opts, {pkg}.WithLogger(o.Logger))\n\t}}")
        w(f"\tif o.Middlewares != nil {{\n\t\topts = append(opts, {pkg}.WithMiddlewares(o.Middlewares...))\n\t}}")
        w(f"\tif o.ErrorHandler != nil {{\n\t\topts = append(opts, {pkg}.WithErrorHandler(o.ErrorHandler))\n\t}}")
        w(f"\tc, err := {pkg}.New{side}Controller(bc, opts...)\n\tif err != nil {{\n\t\treturn nil, err\n\t}}\n\treturn &{T}{{c}}, nil\n}}\n")
        w(f"func (x *{T}) Provider() string {{ return \"{side.lower()}\" }}\n")
        w(f"func (x *{T}) Subscribe(ctx context.Context, op string, par []string, h Handler) error {{\n\tswitch op {{")
        for op, t, n in recvs:
            w(f"\tcase \"{op}\":\n\t\treturn subscribing{'P' if n else ''}(ctx, x.c.{sub(op)}, {P(n)}h, \"{op}\")")
        w("\t}\n\tpanic(\"no operation \" + op)\n}\n")
        w(f"func (x *{T}) Unsubscribe(ctx context.Context, op string, par []string) {{\n\tswitch op {{")
        for op, t, n in recvs:
            w(f"\tcase \"{op}\":\n\t\tx.c.{unsub(op)}(ctx{', ' + P(n)[:-2] if n else ''})")
        w("\tdefault:\n\t\tpanic(\"no operation \" + op)\n\t}\n}\n")
        w(f"type all{side}_{pkg} struct{{ h Handler }}\n")
        for op, t, n in recvs:
            w(f"func (a all{side}_{pkg}) {recv(op)}(ctx context.Context, m {pkg}.{t}Message) error {{ return a.h(ctx, \"{op}\", m) }}")
        w("")
        suball, unsuball = ("SubscribeToAllChannels", "UnsubscribeFromAllChannels") if v == 3 else ("SubscribeAll", "UnsubscribeAll")
        w(f"func (x *{T}) SubscribeAll(ctx context.Context, h Handler) error {{ return x.c.{suball}(ctx, all{side}_{pkg}{{h}}) }}\n")
        w(f"func (x *{T}) UnsubscribeAll(ctx context.Context) {{ x.c.{unsuball}(ctx) }}\n")
        w(f"func (x *{T}) Close(ctx context.Context) {{ x.c.Close(ctx) }}\n")
        w(f"func (x *{T}) RecvOps() []string {{ return []string{{{', '.join(chr(34) + r[0] + chr(34) for r in recvs)}}} }}\n")
        w(f"func (x *{T}) SendOps() []string {{ return []string{{{', '.join(chr(34) + r[0] + chr(34) for r in sends)}}} }}\n")
        w(f"func (x *{T}) Send(ctx context.Context, op string, par []string, m any) error {{\n\tswitch op {{")
        for op, t, n, fn in sends:
            w(f"\tcase \"{op}\":\n\t\treturn sending{'P' if n else ''}(ctx, x.c.{fn}, {P(n)}m, \"{op}\")")
        w("\t}\n\tpanic(\"no operation \" + op)\n}\n")
        w(f"func (x *{T}) Request(ctx context.Context, op string, m any) (any, error) {{\n\tswitch op {{")
        if side == "User":
            if v == 3:
                for op, t in (("ping", "Ping"), ("pingb", "Pingb"), ("pingd", "Pingd"), ("ask", "Ask"), ("call", "Call"), ("callp", "Callp")):
                    w(f"\tcase \"{op}\":\n\t\treturn requesting(ctx, x.c.RequestTo{UP(op)}Operation, m, \"{op}\")")
            else:
                for op, t, r in (("ping", "Ping", "Pong"), ("pingb", "Pingb", "Pongb"), ("pingd", "Pingd", "Pongd")):
                    w(f"\tcase \"{op}\":\n\t\tt := m.({pkg}.{t}Message)\n\t\tr, err := x.c.WaitFor{r}(ctx, &t, func(ctx context.Context) error {{ return x.c.Publish{t}(ctx, t) }})\n\t\treturn r, err")
        w("\t}\n\treturn nil, fmt.Errorf(\"no request %s\", op)\n}\n")
        w(f"func (x *{T}) Reply(ctx context.Context, op string, req any, body string) error {{\n\tswitch op {{")
        if side == "App":
            if v == 3:
                for op, t, r, f in (("ping", "Ping", "Pong", "Payload"), ("pingb", "Pingb", "Pongb", "Payload.Body"), ("pingd", "Pingd", "Pongd", "Payload.Body"), ("ask", "Ask", "Answer", "Payload"), ("call", "Call", "Pong", "Payload"), ("callp", "Callp", "Pong", "Payload")):
                    w(f"\tcase \"{op}\":\n\t\treturn replying(ctx, x.c.ReplyTo{UP(op)}Operation, req, body, \"{op}\")")
            else:
                for op, t, r, f in (("ping", "Ping", "Pong", "Payload"), ("pingb", "Pingb", "Pongb", "Payload.Body"), ("pingd", "Pingd", "Pongd", "Payload.Body")):
                    w(f"\tcase \"{op}\":\n\t\tq := req.({pkg}.{t}Message)\n\t\tvar r {pkg}.{r}Message\n\t\tr.SetAsResponseFrom(&q)\n\t\tSetBody(&r, body)\n\t\treturn x.c.Publish{r}(ctx, r)")
        w("\t}\n\treturn fmt.Errorf(\"no reply %s\", op)\n}\n")
    return "\n".join(o)


d = os.path.join(os.environ.get("SIM_DIR") or os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim"), "worlds", "core")
for pkg, v in (("simv3", 3), ("simv3b", 3), ("simv3p", 3), ("simv2", 2)):
    open(os.path.join(d, f"facade_{pkg}.go"), "w").write(gen(pkg, v))
