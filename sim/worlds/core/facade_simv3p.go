// Code generated by tools/mkfacade.py; DO NOT EDIT.

package main

import (
	"context"
	"fmt"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifsim/gen/simv3p"
)

func init() {
	packages["simv3p"] = &Package{Name: "simv3p", V: 3, NewApp: newApp_simv3p, NewUser: newUser_simv3p, New: new_simv3p, Deref: deref_simv3p}
}

func new_simv3p(op string) any {
	switch op {
	case "answer":
		return new(simv3p.AnswerMessage)
	case "ask":
		return new(simv3p.AskMessage)
	case "big":
		return new(simv3p.BigMessage)
	case "branded":
		return new(simv3p.BrandedMessage)
	case "call":
		return new(simv3p.CallMessage)
	case "callp":
		return new(simv3p.CallpMessage)
	case "chat":
		return new(simv3p.TalkMessage)
	case "chatter":
		return new(simv3p.CountsMessage)
	case "counts":
		return new(simv3p.CountsMessage)
	case "extra":
		return new(simv3p.ExtraMessage)
	case "knots":
		return new(simv3p.KnotsMessage)
	case "label":
		return new(simv3p.LabelMessage)
	case "level":
		return new(simv3p.LevelMessage)
	case "list":
		return new(simv3p.ListMessage)
	case "meta":
		return new(simv3p.MetaMessage)
	case "mixed":
		return new(simv3p.MixedMessage)
	case "news":
		return new(simv3p.NewsMessage)
	case "order":
		return new(simv3p.OrderMessage)
	case "ping":
		return new(simv3p.PingMessage)
	case "pingb":
		return new(simv3p.PingbMessage)
	case "pingd":
		return new(simv3p.PingdMessage)
	case "pong":
		return new(simv3p.PongMessage)
	case "pongb":
		return new(simv3p.PongbMessage)
	case "pongd":
		return new(simv3p.PongdMessage)
	case "ratio":
		return new(simv3p.RatioMessage)
	case "ratio32":
		return new(simv3p.Ratio32Message)
	case "room":
		return new(simv3p.TalkMessage)
	case "rows":
		return new(simv3p.RowsMessage)
	case "seat":
		return new(simv3p.TalkMessage)
	case "small":
		return new(simv3p.SmallMessage)
	case "stamp":
		return new(simv3p.StampMessage)
	case "text":
		return new(simv3p.TextMessage)
	case "traced":
		return new(simv3p.TracedMessage)
	case "twisty":
		return new(simv3p.TwistyMessage)
	case "union":
		return new(simv3p.UnionMessage)
	case "when":
		return new(simv3p.WhenMessage)
	}
	panic("no operation " + op)
}

func deref_simv3p(v any) any {
	switch t := v.(type) {
	case *simv3p.AnswerMessage:
		return *t
	case *simv3p.AskMessage:
		return *t
	case *simv3p.BigMessage:
		return *t
	case *simv3p.BrandedMessage:
		return *t
	case *simv3p.CallMessage:
		return *t
	case *simv3p.CallpMessage:
		return *t
	case *simv3p.CountsMessage:
		return *t
	case *simv3p.ExtraMessage:
		return *t
	case *simv3p.KnotsMessage:
		return *t
	case *simv3p.LabelMessage:
		return *t
	case *simv3p.LevelMessage:
		return *t
	case *simv3p.ListMessage:
		return *t
	case *simv3p.MetaMessage:
		return *t
	case *simv3p.MixedMessage:
		return *t
	case *simv3p.NewsMessage:
		return *t
	case *simv3p.OrderMessage:
		return *t
	case *simv3p.PingMessage:
		return *t
	case *simv3p.PingbMessage:
		return *t
	case *simv3p.PingdMessage:
		return *t
	case *simv3p.PongMessage:
		return *t
	case *simv3p.PongbMessage:
		return *t
	case *simv3p.PongdMessage:
		return *t
	case *simv3p.RatioMessage:
		return *t
	case *simv3p.Ratio32Message:
		return *t
	case *simv3p.RowsMessage:
		return *t
	case *simv3p.SmallMessage:
		return *t
	case *simv3p.StampMessage:
		return *t
	case *simv3p.TalkMessage:
		return *t
	case *simv3p.TextMessage:
		return *t
	case *simv3p.TracedMessage:
		return *t
	case *simv3p.TwistyMessage:
		return *t
	case *simv3p.UnionMessage:
		return *t
	case *simv3p.WhenMessage:
		return *t
	}
	return v
}

type ctlApp_simv3p struct{ c *simv3p.AppController }

func newApp_simv3p(bc extensions.BrokerController, o CtlOpts) (Ctl, error) {
	var opts []simv3p.ControllerOption
	if o.Logger != nil {
		opts = append(opts, simv3p.WithLogger(o.Logger))
	}
	if o.Middlewares != nil {
		opts = append(opts, simv3p.WithMiddlewares(o.Middlewares...))
	}
	if o.ErrorHandler != nil {
		opts = append(opts, simv3p.WithErrorHandler(o.ErrorHandler))
	}
	c, err := simv3p.NewAppController(bc, opts...)
	if err != nil {
		return nil, err
	}
	return &ctlApp_simv3p{c}, nil
}

func (x *ctlApp_simv3p) Provider() string { return "app" }

func (x *ctlApp_simv3p) Subscribe(ctx context.Context, op string, par []string, h Handler) error {
	switch op {
	case "text":
		return subscribing(ctx, x.c.SubscribeToTextOperation, h, "text")
	case "small":
		return subscribing(ctx, x.c.SubscribeToSmallOperation, h, "small")
	case "big":
		return subscribing(ctx, x.c.SubscribeToBigOperation, h, "big")
	case "ratio":
		return subscribing(ctx, x.c.SubscribeToRatioOperation, h, "ratio")
	case "ratio32":
		return subscribing(ctx, x.c.SubscribeToRatio32Operation, h, "ratio32")
	case "order":
		return subscribing(ctx, x.c.SubscribeToOrderOperation, h, "order")
	case "list":
		return subscribing(ctx, x.c.SubscribeToListOperation, h, "list")
	case "stamp":
		return subscribing(ctx, x.c.SubscribeToStampOperation, h, "stamp")
	case "room":
		return subscribingP(ctx, x.c.SubscribeToRoomOperation, simv3p.RoomChannelParameters{RoomId: par[0]}, h, "room")
	case "seat":
		return subscribingP(ctx, x.c.SubscribeToSeatOperation, simv3p.SeatChannelParameters{RoomId: par[0], SeatId: par[1]}, h, "seat")
	case "ping":
		return subscribing(ctx, x.c.SubscribeToPingOperation, h, "ping")
	case "pingb":
		return subscribing(ctx, x.c.SubscribeToPingbOperation, h, "pingb")
	case "extra":
		return subscribing(ctx, x.c.SubscribeToExtraOperation, h, "extra")
	case "counts":
		return subscribing(ctx, x.c.SubscribeToCountsOperation, h, "counts")
	case "meta":
		return subscribing(ctx, x.c.SubscribeToMetaOperation, h, "meta")
	case "when":
		return subscribing(ctx, x.c.SubscribeToWhenOperation, h, "when")
	case "level":
		return subscribing(ctx, x.c.SubscribeToLevelOperation, h, "level")
	case "label":
		return subscribing(ctx, x.c.SubscribeToLabelOperation, h, "label")
	case "rows":
		return subscribing(ctx, x.c.SubscribeToRowsOperation, h, "rows")
	case "union":
		return subscribing(ctx, x.c.SubscribeToUnionOperation, h, "union")
	case "pingd":
		return subscribing(ctx, x.c.SubscribeToPingdOperation, h, "pingd")
	case "traced":
		return subscribing(ctx, x.c.SubscribeToTracedOperation, h, "traced")
	case "chat":
		return subscribing(ctx, x.c.SubscribeToChatOperation, h, "chat")
	case "mixed":
		return subscribing(ctx, x.c.SubscribeToMixedOperation, h, "mixed")
	case "knots":
		return subscribing(ctx, x.c.SubscribeToKnotsOperation, h, "knots")
	case "branded":
		return subscribing(ctx, x.c.SubscribeToBrandedOperation, h, "branded")
	case "twisty":
		return subscribing(ctx, x.c.SubscribeToTwistyOperation, h, "twisty")
	case "ask":
		return subscribing(ctx, x.c.SubscribeToAskOperation, h, "ask")
	case "call":
		return subscribing(ctx, x.c.SubscribeToCallOperation, h, "call")
	case "callp":
		return subscribing(ctx, x.c.SubscribeToCallpOperation, h, "callp")
	}
	panic("no operation " + op)
}

func (x *ctlApp_simv3p) Unsubscribe(ctx context.Context, op string, par []string) {
	switch op {
	case "text":
		x.c.UnsubscribeFromTextOperation(ctx)
	case "small":
		x.c.UnsubscribeFromSmallOperation(ctx)
	case "big":
		x.c.UnsubscribeFromBigOperation(ctx)
	case "ratio":
		x.c.UnsubscribeFromRatioOperation(ctx)
	case "ratio32":
		x.c.UnsubscribeFromRatio32Operation(ctx)
	case "order":
		x.c.UnsubscribeFromOrderOperation(ctx)
	case "list":
		x.c.UnsubscribeFromListOperation(ctx)
	case "stamp":
		x.c.UnsubscribeFromStampOperation(ctx)
	case "room":
		x.c.UnsubscribeFromRoomOperation(ctx, simv3p.RoomChannelParameters{RoomId: par[0]})
	case "seat":
		x.c.UnsubscribeFromSeatOperation(ctx, simv3p.SeatChannelParameters{RoomId: par[0], SeatId: par[1]})
	case "ping":
		x.c.UnsubscribeFromPingOperation(ctx)
	case "pingb":
		x.c.UnsubscribeFromPingbOperation(ctx)
	case "extra":
		x.c.UnsubscribeFromExtraOperation(ctx)
	case "counts":
		x.c.UnsubscribeFromCountsOperation(ctx)
	case "meta":
		x.c.UnsubscribeFromMetaOperation(ctx)
	case "when":
		x.c.UnsubscribeFromWhenOperation(ctx)
	case "level":
		x.c.UnsubscribeFromLevelOperation(ctx)
	case "label":
		x.c.UnsubscribeFromLabelOperation(ctx)
	case "rows":
		x.c.UnsubscribeFromRowsOperation(ctx)
	case "union":
		x.c.UnsubscribeFromUnionOperation(ctx)
	case "pingd":
		x.c.UnsubscribeFromPingdOperation(ctx)
	case "traced":
		x.c.UnsubscribeFromTracedOperation(ctx)
	case "chat":
		x.c.UnsubscribeFromChatOperation(ctx)
	case "mixed":
		x.c.UnsubscribeFromMixedOperation(ctx)
	case "knots":
		x.c.UnsubscribeFromKnotsOperation(ctx)
	case "branded":
		x.c.UnsubscribeFromBrandedOperation(ctx)
	case "twisty":
		x.c.UnsubscribeFromTwistyOperation(ctx)
	case "ask":
		x.c.UnsubscribeFromAskOperation(ctx)
	case "call":
		x.c.UnsubscribeFromCallOperation(ctx)
	case "callp":
		x.c.UnsubscribeFromCallpOperation(ctx)
	default:
		panic("no operation " + op)
	}
}

type allApp_simv3p struct{ h Handler }

func (a allApp_simv3p) TextOperationReceived(ctx context.Context, m simv3p.TextMessage) error {
	return a.h(ctx, "text", m)
}
func (a allApp_simv3p) SmallOperationReceived(ctx context.Context, m simv3p.SmallMessage) error {
	return a.h(ctx, "small", m)
}
func (a allApp_simv3p) BigOperationReceived(ctx context.Context, m simv3p.BigMessage) error {
	return a.h(ctx, "big", m)
}
func (a allApp_simv3p) RatioOperationReceived(ctx context.Context, m simv3p.RatioMessage) error {
	return a.h(ctx, "ratio", m)
}
func (a allApp_simv3p) Ratio32OperationReceived(ctx context.Context, m simv3p.Ratio32Message) error {
	return a.h(ctx, "ratio32", m)
}
func (a allApp_simv3p) OrderOperationReceived(ctx context.Context, m simv3p.OrderMessage) error {
	return a.h(ctx, "order", m)
}
func (a allApp_simv3p) ListOperationReceived(ctx context.Context, m simv3p.ListMessage) error {
	return a.h(ctx, "list", m)
}
func (a allApp_simv3p) StampOperationReceived(ctx context.Context, m simv3p.StampMessage) error {
	return a.h(ctx, "stamp", m)
}
func (a allApp_simv3p) RoomOperationReceived(ctx context.Context, m simv3p.TalkMessage) error {
	return a.h(ctx, "room", m)
}
func (a allApp_simv3p) SeatOperationReceived(ctx context.Context, m simv3p.TalkMessage) error {
	return a.h(ctx, "seat", m)
}
func (a allApp_simv3p) PingOperationReceived(ctx context.Context, m simv3p.PingMessage) error {
	return a.h(ctx, "ping", m)
}
func (a allApp_simv3p) PingbOperationReceived(ctx context.Context, m simv3p.PingbMessage) error {
	return a.h(ctx, "pingb", m)
}
func (a allApp_simv3p) ExtraOperationReceived(ctx context.Context, m simv3p.ExtraMessage) error {
	return a.h(ctx, "extra", m)
}
func (a allApp_simv3p) CountsOperationReceived(ctx context.Context, m simv3p.CountsMessage) error {
	return a.h(ctx, "counts", m)
}
func (a allApp_simv3p) MetaOperationReceived(ctx context.Context, m simv3p.MetaMessage) error {
	return a.h(ctx, "meta", m)
}
func (a allApp_simv3p) WhenOperationReceived(ctx context.Context, m simv3p.WhenMessage) error {
	return a.h(ctx, "when", m)
}
func (a allApp_simv3p) LevelOperationReceived(ctx context.Context, m simv3p.LevelMessage) error {
	return a.h(ctx, "level", m)
}
func (a allApp_simv3p) LabelOperationReceived(ctx context.Context, m simv3p.LabelMessage) error {
	return a.h(ctx, "label", m)
}
func (a allApp_simv3p) RowsOperationReceived(ctx context.Context, m simv3p.RowsMessage) error {
	return a.h(ctx, "rows", m)
}
func (a allApp_simv3p) UnionOperationReceived(ctx context.Context, m simv3p.UnionMessage) error {
	return a.h(ctx, "union", m)
}
func (a allApp_simv3p) PingdOperationReceived(ctx context.Context, m simv3p.PingdMessage) error {
	return a.h(ctx, "pingd", m)
}
func (a allApp_simv3p) TracedOperationReceived(ctx context.Context, m simv3p.TracedMessage) error {
	return a.h(ctx, "traced", m)
}
func (a allApp_simv3p) ChatOperationReceived(ctx context.Context, m simv3p.TalkMessage) error {
	return a.h(ctx, "chat", m)
}
func (a allApp_simv3p) MixedOperationReceived(ctx context.Context, m simv3p.MixedMessage) error {
	return a.h(ctx, "mixed", m)
}
func (a allApp_simv3p) KnotsOperationReceived(ctx context.Context, m simv3p.KnotsMessage) error {
	return a.h(ctx, "knots", m)
}
func (a allApp_simv3p) BrandedOperationReceived(ctx context.Context, m simv3p.BrandedMessage) error {
	return a.h(ctx, "branded", m)
}
func (a allApp_simv3p) TwistyOperationReceived(ctx context.Context, m simv3p.TwistyMessage) error {
	return a.h(ctx, "twisty", m)
}
func (a allApp_simv3p) AskOperationReceived(ctx context.Context, m simv3p.AskMessage) error {
	return a.h(ctx, "ask", m)
}
func (a allApp_simv3p) CallOperationReceived(ctx context.Context, m simv3p.CallMessage) error {
	return a.h(ctx, "call", m)
}
func (a allApp_simv3p) CallpOperationReceived(ctx context.Context, m simv3p.CallpMessage) error {
	return a.h(ctx, "callp", m)
}

func (x *ctlApp_simv3p) SubscribeAll(ctx context.Context, h Handler) error {
	return x.c.SubscribeToAllChannels(ctx, allApp_simv3p{h})
}

func (x *ctlApp_simv3p) UnsubscribeAll(ctx context.Context) { x.c.UnsubscribeFromAllChannels(ctx) }

func (x *ctlApp_simv3p) Close(ctx context.Context) { x.c.Close(ctx) }

func (x *ctlApp_simv3p) RecvOps() []string {
	return []string{"text", "small", "big", "ratio", "ratio32", "order", "list", "stamp", "room", "seat", "ping", "pingb", "extra", "counts", "meta", "when", "level", "label", "rows", "union", "pingd", "traced", "chat", "mixed", "knots", "branded", "twisty", "ask", "call", "callp"}
}

func (x *ctlApp_simv3p) SendOps() []string {
	return []string{"news", "chatter", "pong", "pongb", "pongd", "answer"}
}

func (x *ctlApp_simv3p) Send(ctx context.Context, op string, par []string, m any) error {
	switch op {
	case "news":
		return sending(ctx, x.c.SendAsNewsOperation, m, "news")
	case "chatter":
		return sending(ctx, x.c.SendAsChatterOperation, m, "chatter")
	case "pong":
		return sending(ctx, x.c.SendAsReplyToPingOperation, m, "pong")
	case "pongb":
		return sending(ctx, x.c.SendAsReplyToPingbOperation, m, "pongb")
	case "pongd":
		return sending(ctx, x.c.SendAsReplyToPingdOperation, m, "pongd")
	case "answer":
		return sending(ctx, x.c.SendAsReplyToAskOperation, m, "answer")
	}
	panic("no operation " + op)
}

func (x *ctlApp_simv3p) Request(ctx context.Context, op string, m any) (any, error) {
	switch op {
	}
	return nil, fmt.Errorf("no request %s", op)
}

func (x *ctlApp_simv3p) Reply(ctx context.Context, op string, req any, body string) error {
	switch op {
	case "ping":
		return replying(ctx, x.c.ReplyToPingOperation, req, body, "ping")
	case "pingb":
		return replying(ctx, x.c.ReplyToPingbOperation, req, body, "pingb")
	case "pingd":
		return replying(ctx, x.c.ReplyToPingdOperation, req, body, "pingd")
	case "ask":
		return replying(ctx, x.c.ReplyToAskOperation, req, body, "ask")
	case "call":
		return replying(ctx, x.c.ReplyToCallOperation, req, body, "call")
	case "callp":
		return replying(ctx, x.c.ReplyToCallpOperation, req, body, "callp")
	}
	return fmt.Errorf("no reply %s", op)
}

type ctlUser_simv3p struct{ c *simv3p.UserController }

func newUser_simv3p(bc extensions.BrokerController, o CtlOpts) (Ctl, error) {
	var opts []simv3p.ControllerOption
	if o.Logger != nil {
		opts = append(opts, simv3p.WithLogger(o.Logger))
	}
	if o.Middlewares != nil {
		opts = append(opts, simv3p.WithMiddlewares(o.Middlewares...))
	}
	if o.ErrorHandler != nil {
		opts = append(opts, simv3p.WithErrorHandler(o.ErrorHandler))
	}
	c, err := simv3p.NewUserController(bc, opts...)
	if err != nil {
		return nil, err
	}
	return &ctlUser_simv3p{c}, nil
}

func (x *ctlUser_simv3p) Provider() string { return "user" }

func (x *ctlUser_simv3p) Subscribe(ctx context.Context, op string, par []string, h Handler) error {
	switch op {
	case "news":
		return subscribing(ctx, x.c.SubscribeToNewsOperation, h, "news")
	case "chatter":
		return subscribing(ctx, x.c.SubscribeToChatterOperation, h, "chatter")
	}
	panic("no operation " + op)
}

func (x *ctlUser_simv3p) Unsubscribe(ctx context.Context, op string, par []string) {
	switch op {
	case "news":
		x.c.UnsubscribeFromNewsOperation(ctx)
	case "chatter":
		x.c.UnsubscribeFromChatterOperation(ctx)
	default:
		panic("no operation " + op)
	}
}

type allUser_simv3p struct{ h Handler }

func (a allUser_simv3p) NewsOperationReceived(ctx context.Context, m simv3p.NewsMessage) error {
	return a.h(ctx, "news", m)
}
func (a allUser_simv3p) ChatterOperationReceived(ctx context.Context, m simv3p.CountsMessage) error {
	return a.h(ctx, "chatter", m)
}

func (x *ctlUser_simv3p) SubscribeAll(ctx context.Context, h Handler) error {
	return x.c.SubscribeToAllChannels(ctx, allUser_simv3p{h})
}

func (x *ctlUser_simv3p) UnsubscribeAll(ctx context.Context) { x.c.UnsubscribeFromAllChannels(ctx) }

func (x *ctlUser_simv3p) Close(ctx context.Context) { x.c.Close(ctx) }

func (x *ctlUser_simv3p) RecvOps() []string { return []string{"news", "chatter"} }

func (x *ctlUser_simv3p) SendOps() []string {
	return []string{"text", "small", "big", "ratio", "ratio32", "order", "list", "stamp", "room", "seat", "ping", "pingb", "extra", "counts", "meta", "when", "level", "label", "rows", "union", "pingd", "traced", "chat", "mixed", "knots", "branded", "twisty", "ask", "call", "callp"}
}

func (x *ctlUser_simv3p) Send(ctx context.Context, op string, par []string, m any) error {
	switch op {
	case "text":
		return sending(ctx, x.c.SendToTextOperation, m, "text")
	case "small":
		return sending(ctx, x.c.SendToSmallOperation, m, "small")
	case "big":
		return sending(ctx, x.c.SendToBigOperation, m, "big")
	case "ratio":
		return sending(ctx, x.c.SendToRatioOperation, m, "ratio")
	case "ratio32":
		return sending(ctx, x.c.SendToRatio32Operation, m, "ratio32")
	case "order":
		return sending(ctx, x.c.SendToOrderOperation, m, "order")
	case "list":
		return sending(ctx, x.c.SendToListOperation, m, "list")
	case "stamp":
		return sending(ctx, x.c.SendToStampOperation, m, "stamp")
	case "room":
		return sendingP(ctx, x.c.SendToRoomOperation, simv3p.RoomChannelParameters{RoomId: par[0]}, m, "room")
	case "seat":
		return sendingP(ctx, x.c.SendToSeatOperation, simv3p.SeatChannelParameters{RoomId: par[0], SeatId: par[1]}, m, "seat")
	case "ping":
		return sending(ctx, x.c.SendToPingOperation, m, "ping")
	case "pingb":
		return sending(ctx, x.c.SendToPingbOperation, m, "pingb")
	case "extra":
		return sending(ctx, x.c.SendToExtraOperation, m, "extra")
	case "counts":
		return sending(ctx, x.c.SendToCountsOperation, m, "counts")
	case "meta":
		return sending(ctx, x.c.SendToMetaOperation, m, "meta")
	case "when":
		return sending(ctx, x.c.SendToWhenOperation, m, "when")
	case "level":
		return sending(ctx, x.c.SendToLevelOperation, m, "level")
	case "label":
		return sending(ctx, x.c.SendToLabelOperation, m, "label")
	case "rows":
		return sending(ctx, x.c.SendToRowsOperation, m, "rows")
	case "union":
		return sending(ctx, x.c.SendToUnionOperation, m, "union")
	case "pingd":
		return sending(ctx, x.c.SendToPingdOperation, m, "pingd")
	case "traced":
		return sending(ctx, x.c.SendToTracedOperation, m, "traced")
	case "chat":
		return sending(ctx, x.c.SendToChatOperation, m, "chat")
	case "mixed":
		return sending(ctx, x.c.SendToMixedOperation, m, "mixed")
	case "knots":
		return sending(ctx, x.c.SendToKnotsOperation, m, "knots")
	case "branded":
		return sending(ctx, x.c.SendToBrandedOperation, m, "branded")
	case "twisty":
		return sending(ctx, x.c.SendToTwistyOperation, m, "twisty")
	case "ask":
		return sending(ctx, x.c.SendToAskOperation, m, "ask")
	case "call":
		return sending(ctx, x.c.SendToCallOperation, m, "call")
	case "callp":
		return sending(ctx, x.c.SendToCallpOperation, m, "callp")
	}
	panic("no operation " + op)
}

func (x *ctlUser_simv3p) Request(ctx context.Context, op string, m any) (any, error) {
	switch op {
	case "ping":
		return requesting(ctx, x.c.RequestToPingOperation, m, "ping")
	case "pingb":
		return requesting(ctx, x.c.RequestToPingbOperation, m, "pingb")
	case "pingd":
		return requesting(ctx, x.c.RequestToPingdOperation, m, "pingd")
	case "ask":
		return requesting(ctx, x.c.RequestToAskOperation, m, "ask")
	case "call":
		return requesting(ctx, x.c.RequestToCallOperation, m, "call")
	case "callp":
		return requesting(ctx, x.c.RequestToCallpOperation, m, "callp")
	}
	return nil, fmt.Errorf("no request %s", op)
}

func (x *ctlUser_simv3p) Reply(ctx context.Context, op string, req any, body string) error {
	switch op {
	}
	return fmt.Errorf("no reply %s", op)
}
