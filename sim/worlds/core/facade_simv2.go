// Code generated by tools/mkfacade.py; DO NOT EDIT.

package main

import (
	"context"
	"fmt"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifsim/gen/simv2"
)

func init() {
	packages["simv2"] = &Package{Name: "simv2", V: 2, NewApp: newApp_simv2, NewUser: newUser_simv2, New: new_simv2, Deref: deref_simv2}
}

func new_simv2(op string) any {
	switch op {
	case "big":
		return new(simv2.BigMessage)
	case "branded":
		return new(simv2.BrandedMessage)
	case "chat":
		return new(simv2.TalkMessage)
	case "chatter":
		return new(simv2.CountsMessage)
	case "counts":
		return new(simv2.CountsMessage)
	case "extra":
		return new(simv2.ExtraMessage)
	case "knots":
		return new(simv2.KnotsMessage)
	case "label":
		return new(simv2.LabelMessage)
	case "level":
		return new(simv2.LevelMessage)
	case "list":
		return new(simv2.ListMessage)
	case "meta":
		return new(simv2.MetaMessage)
	case "mixed":
		return new(simv2.MixedMessage)
	case "news":
		return new(simv2.NewsMessage)
	case "order":
		return new(simv2.OrderMessage)
	case "ping":
		return new(simv2.PingMessage)
	case "pingb":
		return new(simv2.PingbMessage)
	case "pingd":
		return new(simv2.PingdMessage)
	case "pong":
		return new(simv2.PongMessage)
	case "pongb":
		return new(simv2.PongbMessage)
	case "pongd":
		return new(simv2.PongdMessage)
	case "ratio":
		return new(simv2.RatioMessage)
	case "ratio32":
		return new(simv2.Ratio32Message)
	case "room":
		return new(simv2.TalkMessage)
	case "rows":
		return new(simv2.RowsMessage)
	case "seat":
		return new(simv2.TalkMessage)
	case "small":
		return new(simv2.SmallMessage)
	case "stamp":
		return new(simv2.StampMessage)
	case "text":
		return new(simv2.TextMessage)
	case "traced":
		return new(simv2.TracedMessage)
	case "twisty":
		return new(simv2.TwistyMessage)
	case "union":
		return new(simv2.UnionMessage)
	case "when":
		return new(simv2.WhenMessage)
	}
	panic("no operation " + op)
}

func deref_simv2(v any) any {
	switch t := v.(type) {
	case *simv2.BigMessage:
		return *t
	case *simv2.BrandedMessage:
		return *t
	case *simv2.CountsMessage:
		return *t
	case *simv2.ExtraMessage:
		return *t
	case *simv2.KnotsMessage:
		return *t
	case *simv2.LabelMessage:
		return *t
	case *simv2.LevelMessage:
		return *t
	case *simv2.ListMessage:
		return *t
	case *simv2.MetaMessage:
		return *t
	case *simv2.MixedMessage:
		return *t
	case *simv2.NewsMessage:
		return *t
	case *simv2.OrderMessage:
		return *t
	case *simv2.PingMessage:
		return *t
	case *simv2.PingbMessage:
		return *t
	case *simv2.PingdMessage:
		return *t
	case *simv2.PongMessage:
		return *t
	case *simv2.PongbMessage:
		return *t
	case *simv2.PongdMessage:
		return *t
	case *simv2.RatioMessage:
		return *t
	case *simv2.Ratio32Message:
		return *t
	case *simv2.RowsMessage:
		return *t
	case *simv2.SmallMessage:
		return *t
	case *simv2.StampMessage:
		return *t
	case *simv2.TalkMessage:
		return *t
	case *simv2.TextMessage:
		return *t
	case *simv2.TracedMessage:
		return *t
	case *simv2.TwistyMessage:
		return *t
	case *simv2.UnionMessage:
		return *t
	case *simv2.WhenMessage:
		return *t
	}
	return v
}

type ctlApp_simv2 struct{ c *simv2.AppController }

func newApp_simv2(bc extensions.BrokerController, o CtlOpts) (Ctl, error) {
	var opts []simv2.ControllerOption
	if o.Logger != nil {
		opts = append(opts, simv2.WithLogger(o.Logger))
	}
	if o.Middlewares != nil {
		opts = append(opts, simv2.WithMiddlewares(o.Middlewares...))
	}
	if o.ErrorHandler != nil {
		opts = append(opts, simv2.WithErrorHandler(o.ErrorHandler))
	}
	c, err := simv2.NewAppController(bc, opts...)
	if err != nil {
		return nil, err
	}
	return &ctlApp_simv2{c}, nil
}

func (x *ctlApp_simv2) Provider() string { return "app" }

func (x *ctlApp_simv2) Subscribe(ctx context.Context, op string, par []string, h Handler) error {
	switch op {
	case "text":
		return subscribing(ctx, x.c.SubscribeText, h, "text")
	case "small":
		return subscribing(ctx, x.c.SubscribeSmall, h, "small")
	case "big":
		return subscribing(ctx, x.c.SubscribeBig, h, "big")
	case "ratio":
		return subscribing(ctx, x.c.SubscribeRatio, h, "ratio")
	case "ratio32":
		return subscribing(ctx, x.c.SubscribeRatio32, h, "ratio32")
	case "order":
		return subscribing(ctx, x.c.SubscribeOrder, h, "order")
	case "list":
		return subscribing(ctx, x.c.SubscribeList, h, "list")
	case "stamp":
		return subscribing(ctx, x.c.SubscribeStamp, h, "stamp")
	case "room":
		return subscribingP(ctx, x.c.SubscribeRoom, simv2.Sim2RoomTalkParameters{RoomId: par[0]}, h, "room")
	case "seat":
		return subscribingP(ctx, x.c.SubscribeSeat, simv2.Sim2Seat100Parameters{RoomId: par[0], SeatId: par[1]}, h, "seat")
	case "ping":
		return subscribing(ctx, x.c.SubscribePing, h, "ping")
	case "pingb":
		return subscribing(ctx, x.c.SubscribePingb, h, "pingb")
	case "extra":
		return subscribing(ctx, x.c.SubscribeExtra, h, "extra")
	case "counts":
		return subscribing(ctx, x.c.SubscribeCounts, h, "counts")
	case "meta":
		return subscribing(ctx, x.c.SubscribeMeta, h, "meta")
	case "when":
		return subscribing(ctx, x.c.SubscribeWhen, h, "when")
	case "level":
		return subscribing(ctx, x.c.SubscribeLevel, h, "level")
	case "label":
		return subscribing(ctx, x.c.SubscribeLabel, h, "label")
	case "rows":
		return subscribing(ctx, x.c.SubscribeRows, h, "rows")
	case "union":
		return subscribing(ctx, x.c.SubscribeUnion, h, "union")
	case "pingd":
		return subscribing(ctx, x.c.SubscribePingd, h, "pingd")
	case "traced":
		return subscribing(ctx, x.c.SubscribeTraced, h, "traced")
	case "chat":
		return subscribing(ctx, x.c.SubscribeChat, h, "chat")
	case "mixed":
		return subscribing(ctx, x.c.SubscribeMixed, h, "mixed")
	case "knots":
		return subscribing(ctx, x.c.SubscribeKnots, h, "knots")
	case "branded":
		return subscribing(ctx, x.c.SubscribeBranded, h, "branded")
	case "twisty":
		return subscribing(ctx, x.c.SubscribeTwisty, h, "twisty")
	}
	panic("no operation " + op)
}

func (x *ctlApp_simv2) Unsubscribe(ctx context.Context, op string, par []string) {
	switch op {
	case "text":
		x.c.UnsubscribeText(ctx)
	case "small":
		x.c.UnsubscribeSmall(ctx)
	case "big":
		x.c.UnsubscribeBig(ctx)
	case "ratio":
		x.c.UnsubscribeRatio(ctx)
	case "ratio32":
		x.c.UnsubscribeRatio32(ctx)
	case "order":
		x.c.UnsubscribeOrder(ctx)
	case "list":
		x.c.UnsubscribeList(ctx)
	case "stamp":
		x.c.UnsubscribeStamp(ctx)
	case "room":
		x.c.UnsubscribeRoom(ctx, simv2.Sim2RoomTalkParameters{RoomId: par[0]})
	case "seat":
		x.c.UnsubscribeSeat(ctx, simv2.Sim2Seat100Parameters{RoomId: par[0], SeatId: par[1]})
	case "ping":
		x.c.UnsubscribePing(ctx)
	case "pingb":
		x.c.UnsubscribePingb(ctx)
	case "extra":
		x.c.UnsubscribeExtra(ctx)
	case "counts":
		x.c.UnsubscribeCounts(ctx)
	case "meta":
		x.c.UnsubscribeMeta(ctx)
	case "when":
		x.c.UnsubscribeWhen(ctx)
	case "level":
		x.c.UnsubscribeLevel(ctx)
	case "label":
		x.c.UnsubscribeLabel(ctx)
	case "rows":
		x.c.UnsubscribeRows(ctx)
	case "union":
		x.c.UnsubscribeUnion(ctx)
	case "pingd":
		x.c.UnsubscribePingd(ctx)
	case "traced":
		x.c.UnsubscribeTraced(ctx)
	case "chat":
		x.c.UnsubscribeChat(ctx)
	case "mixed":
		x.c.UnsubscribeMixed(ctx)
	case "knots":
		x.c.UnsubscribeKnots(ctx)
	case "branded":
		x.c.UnsubscribeBranded(ctx)
	case "twisty":
		x.c.UnsubscribeTwisty(ctx)
	default:
		panic("no operation " + op)
	}
}

type allApp_simv2 struct{ h Handler }

func (a allApp_simv2) Text(ctx context.Context, m simv2.TextMessage) error {
	return a.h(ctx, "text", m)
}
func (a allApp_simv2) Small(ctx context.Context, m simv2.SmallMessage) error {
	return a.h(ctx, "small", m)
}
func (a allApp_simv2) Big(ctx context.Context, m simv2.BigMessage) error { return a.h(ctx, "big", m) }
func (a allApp_simv2) Ratio(ctx context.Context, m simv2.RatioMessage) error {
	return a.h(ctx, "ratio", m)
}
func (a allApp_simv2) Ratio32(ctx context.Context, m simv2.Ratio32Message) error {
	return a.h(ctx, "ratio32", m)
}
func (a allApp_simv2) Order(ctx context.Context, m simv2.OrderMessage) error {
	return a.h(ctx, "order", m)
}
func (a allApp_simv2) List(ctx context.Context, m simv2.ListMessage) error {
	return a.h(ctx, "list", m)
}
func (a allApp_simv2) Stamp(ctx context.Context, m simv2.StampMessage) error {
	return a.h(ctx, "stamp", m)
}
func (a allApp_simv2) Room(ctx context.Context, m simv2.TalkMessage) error {
	return a.h(ctx, "room", m)
}
func (a allApp_simv2) Seat(ctx context.Context, m simv2.TalkMessage) error {
	return a.h(ctx, "seat", m)
}
func (a allApp_simv2) Ping(ctx context.Context, m simv2.PingMessage) error {
	return a.h(ctx, "ping", m)
}
func (a allApp_simv2) Pingb(ctx context.Context, m simv2.PingbMessage) error {
	return a.h(ctx, "pingb", m)
}
func (a allApp_simv2) Extra(ctx context.Context, m simv2.ExtraMessage) error {
	return a.h(ctx, "extra", m)
}
func (a allApp_simv2) Counts(ctx context.Context, m simv2.CountsMessage) error {
	return a.h(ctx, "counts", m)
}
func (a allApp_simv2) Meta(ctx context.Context, m simv2.MetaMessage) error {
	return a.h(ctx, "meta", m)
}
func (a allApp_simv2) When(ctx context.Context, m simv2.WhenMessage) error {
	return a.h(ctx, "when", m)
}
func (a allApp_simv2) Level(ctx context.Context, m simv2.LevelMessage) error {
	return a.h(ctx, "level", m)
}
func (a allApp_simv2) Label(ctx context.Context, m simv2.LabelMessage) error {
	return a.h(ctx, "label", m)
}
func (a allApp_simv2) Rows(ctx context.Context, m simv2.RowsMessage) error {
	return a.h(ctx, "rows", m)
}
func (a allApp_simv2) Union(ctx context.Context, m simv2.UnionMessage) error {
	return a.h(ctx, "union", m)
}
func (a allApp_simv2) Pingd(ctx context.Context, m simv2.PingdMessage) error {
	return a.h(ctx, "pingd", m)
}
func (a allApp_simv2) Traced(ctx context.Context, m simv2.TracedMessage) error {
	return a.h(ctx, "traced", m)
}
func (a allApp_simv2) Chat(ctx context.Context, m simv2.TalkMessage) error {
	return a.h(ctx, "chat", m)
}
func (a allApp_simv2) Mixed(ctx context.Context, m simv2.MixedMessage) error {
	return a.h(ctx, "mixed", m)
}
func (a allApp_simv2) Knots(ctx context.Context, m simv2.KnotsMessage) error {
	return a.h(ctx, "knots", m)
}
func (a allApp_simv2) Branded(ctx context.Context, m simv2.BrandedMessage) error {
	return a.h(ctx, "branded", m)
}
func (a allApp_simv2) Twisty(ctx context.Context, m simv2.TwistyMessage) error {
	return a.h(ctx, "twisty", m)
}

func (x *ctlApp_simv2) SubscribeAll(ctx context.Context, h Handler) error {
	return x.c.SubscribeAll(ctx, allApp_simv2{h})
}

func (x *ctlApp_simv2) UnsubscribeAll(ctx context.Context) { x.c.UnsubscribeAll(ctx) }

func (x *ctlApp_simv2) Close(ctx context.Context) { x.c.Close(ctx) }

func (x *ctlApp_simv2) RecvOps() []string {
	return []string{"text", "small", "big", "ratio", "ratio32", "order", "list", "stamp", "room", "seat", "ping", "pingb", "extra", "counts", "meta", "when", "level", "label", "rows", "union", "pingd", "traced", "chat", "mixed", "knots", "branded", "twisty"}
}

func (x *ctlApp_simv2) SendOps() []string {
	return []string{"news", "chatter", "pong", "pongb", "pongd"}
}

func (x *ctlApp_simv2) Send(ctx context.Context, op string, par []string, m any) error {
	switch op {
	case "news":
		return sending(ctx, x.c.PublishNews, m, "news")
	case "chatter":
		return sending(ctx, x.c.PublishChat, m, "chatter")
	case "pong":
		return sending(ctx, x.c.PublishPong, m, "pong")
	case "pongb":
		return sending(ctx, x.c.PublishPongb, m, "pongb")
	case "pongd":
		return sending(ctx, x.c.PublishPongd, m, "pongd")
	}
	panic("no operation " + op)
}

func (x *ctlApp_simv2) Request(ctx context.Context, op string, m any) (any, error) {
	switch op {
	}
	return nil, fmt.Errorf("no request %s", op)
}

func (x *ctlApp_simv2) Reply(ctx context.Context, op string, req any, body string) error {
	switch op {
	case "ping":
		q := req.(simv2.PingMessage)
		var r simv2.PongMessage
		r.SetAsResponseFrom(&q)
		SetBody(&r, body)
		return x.c.PublishPong(ctx, r)
	case "pingb":
		q := req.(simv2.PingbMessage)
		var r simv2.PongbMessage
		r.SetAsResponseFrom(&q)
		SetBody(&r, body)
		return x.c.PublishPongb(ctx, r)
	case "pingd":
		q := req.(simv2.PingdMessage)
		var r simv2.PongdMessage
		r.SetAsResponseFrom(&q)
		SetBody(&r, body)
		return x.c.PublishPongd(ctx, r)
	}
	return fmt.Errorf("no reply %s", op)
}

type ctlUser_simv2 struct{ c *simv2.UserController }

func newUser_simv2(bc extensions.BrokerController, o CtlOpts) (Ctl, error) {
	var opts []simv2.ControllerOption
	if o.Logger != nil {
		opts = append(opts, simv2.WithLogger(o.Logger))
	}
	if o.Middlewares != nil {
		opts = append(opts, simv2.WithMiddlewares(o.Middlewares...))
	}
	if o.ErrorHandler != nil {
		opts = append(opts, simv2.WithErrorHandler(o.ErrorHandler))
	}
	c, err := simv2.NewUserController(bc, opts...)
	if err != nil {
		return nil, err
	}
	return &ctlUser_simv2{c}, nil
}

func (x *ctlUser_simv2) Provider() string { return "user" }

func (x *ctlUser_simv2) Subscribe(ctx context.Context, op string, par []string, h Handler) error {
	switch op {
	case "news":
		return subscribing(ctx, x.c.SubscribeNews, h, "news")
	case "chatter":
		return subscribing(ctx, x.c.SubscribeChat, h, "chatter")
	case "pong":
		return subscribing(ctx, x.c.SubscribePong, h, "pong")
	case "pongb":
		return subscribing(ctx, x.c.SubscribePongb, h, "pongb")
	case "pongd":
		return subscribing(ctx, x.c.SubscribePongd, h, "pongd")
	}
	panic("no operation " + op)
}

func (x *ctlUser_simv2) Unsubscribe(ctx context.Context, op string, par []string) {
	switch op {
	case "news":
		x.c.UnsubscribeNews(ctx)
	case "chatter":
		x.c.UnsubscribeChat(ctx)
	case "pong":
		x.c.UnsubscribePong(ctx)
	case "pongb":
		x.c.UnsubscribePongb(ctx)
	case "pongd":
		x.c.UnsubscribePongd(ctx)
	default:
		panic("no operation " + op)
	}
}

type allUser_simv2 struct{ h Handler }

func (a allUser_simv2) News(ctx context.Context, m simv2.NewsMessage) error {
	return a.h(ctx, "news", m)
}
func (a allUser_simv2) Chat(ctx context.Context, m simv2.CountsMessage) error {
	return a.h(ctx, "chatter", m)
}
func (a allUser_simv2) Pong(ctx context.Context, m simv2.PongMessage) error {
	return a.h(ctx, "pong", m)
}
func (a allUser_simv2) Pongb(ctx context.Context, m simv2.PongbMessage) error {
	return a.h(ctx, "pongb", m)
}
func (a allUser_simv2) Pongd(ctx context.Context, m simv2.PongdMessage) error {
	return a.h(ctx, "pongd", m)
}

func (x *ctlUser_simv2) SubscribeAll(ctx context.Context, h Handler) error {
	return x.c.SubscribeAll(ctx, allUser_simv2{h})
}

func (x *ctlUser_simv2) UnsubscribeAll(ctx context.Context) { x.c.UnsubscribeAll(ctx) }

func (x *ctlUser_simv2) Close(ctx context.Context) { x.c.Close(ctx) }

func (x *ctlUser_simv2) RecvOps() []string {
	return []string{"news", "chatter", "pong", "pongb", "pongd"}
}

func (x *ctlUser_simv2) SendOps() []string {
	return []string{"text", "small", "big", "ratio", "ratio32", "order", "list", "stamp", "room", "seat", "ping", "pingb", "extra", "counts", "meta", "when", "level", "label", "rows", "union", "pingd", "traced", "chat", "mixed", "knots", "branded", "twisty"}
}

func (x *ctlUser_simv2) Send(ctx context.Context, op string, par []string, m any) error {
	switch op {
	case "text":
		return sending(ctx, x.c.PublishText, m, "text")
	case "small":
		return sending(ctx, x.c.PublishSmall, m, "small")
	case "big":
		return sending(ctx, x.c.PublishBig, m, "big")
	case "ratio":
		return sending(ctx, x.c.PublishRatio, m, "ratio")
	case "ratio32":
		return sending(ctx, x.c.PublishRatio32, m, "ratio32")
	case "order":
		return sending(ctx, x.c.PublishOrder, m, "order")
	case "list":
		return sending(ctx, x.c.PublishList, m, "list")
	case "stamp":
		return sending(ctx, x.c.PublishStamp, m, "stamp")
	case "room":
		return sendingP(ctx, x.c.PublishRoom, simv2.Sim2RoomTalkParameters{RoomId: par[0]}, m, "room")
	case "seat":
		return sendingP(ctx, x.c.PublishSeat, simv2.Sim2Seat100Parameters{RoomId: par[0], SeatId: par[1]}, m, "seat")
	case "ping":
		return sending(ctx, x.c.PublishPing, m, "ping")
	case "pingb":
		return sending(ctx, x.c.PublishPingb, m, "pingb")
	case "extra":
		return sending(ctx, x.c.PublishExtra, m, "extra")
	case "counts":
		return sending(ctx, x.c.PublishCounts, m, "counts")
	case "meta":
		return sending(ctx, x.c.PublishMeta, m, "meta")
	case "when":
		return sending(ctx, x.c.PublishWhen, m, "when")
	case "level":
		return sending(ctx, x.c.PublishLevel, m, "level")
	case "label":
		return sending(ctx, x.c.PublishLabel, m, "label")
	case "rows":
		return sending(ctx, x.c.PublishRows, m, "rows")
	case "union":
		return sending(ctx, x.c.PublishUnion, m, "union")
	case "pingd":
		return sending(ctx, x.c.PublishPingd, m, "pingd")
	case "traced":
		return sending(ctx, x.c.PublishTraced, m, "traced")
	case "chat":
		return sending(ctx, x.c.PublishChat, m, "chat")
	case "mixed":
		return sending(ctx, x.c.PublishMixed, m, "mixed")
	case "knots":
		return sending(ctx, x.c.PublishKnots, m, "knots")
	case "branded":
		return sending(ctx, x.c.PublishBranded, m, "branded")
	case "twisty":
		return sending(ctx, x.c.PublishTwisty, m, "twisty")
	}
	panic("no operation " + op)
}

func (x *ctlUser_simv2) Request(ctx context.Context, op string, m any) (any, error) {
	switch op {
	case "ping":
		t := m.(simv2.PingMessage)
		r, err := x.c.WaitForPong(ctx, &t, func(ctx context.Context) error { return x.c.PublishPing(ctx, t) })
		return r, err
	case "pingb":
		t := m.(simv2.PingbMessage)
		r, err := x.c.WaitForPongb(ctx, &t, func(ctx context.Context) error { return x.c.PublishPingb(ctx, t) })
		return r, err
	case "pingd":
		t := m.(simv2.PingdMessage)
		r, err := x.c.WaitForPongd(ctx, &t, func(ctx context.Context) error { return x.c.PublishPingd(ctx, t) })
		return r, err
	}
	return nil, fmt.Errorf("no request %s", op)
}

func (x *ctlUser_simv2) Reply(ctx context.Context, op string, req any, body string) error {
	switch op {
	}
	return fmt.Errorf("no reply %s", op)
}
