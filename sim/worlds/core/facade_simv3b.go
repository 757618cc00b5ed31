// Code generated by tools/mkfacade.py; DO NOT EDIT.

package main

import (
	"context"
	"fmt"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifsim/gen/simv3b"
)

func init() {
	packages["simv3b"] = &Package{Name: "simv3b", V: 3, NewApp: newApp_simv3b, NewUser: newUser_simv3b, New: new_simv3b, Deref: deref_simv3b}
}

func new_simv3b(op string) any {
	switch op {
	case "answer":
		return new(simv3b.AnswerMessage)
	case "ask":
		return new(simv3b.AskMessage)
	case "big":
		return new(simv3b.BigMessage)
	case "branded":
		return new(simv3b.BrandedMessage)
	case "call":
		return new(simv3b.CallMessage)
	case "callp":
		return new(simv3b.CallpMessage)
	case "chat":
		return new(simv3b.TalkMessage)
	case "chatter":
		return new(simv3b.CountsMessage)
	case "counts":
		return new(simv3b.CountsMessage)
	case "extra":
		return new(simv3b.ExtraMessage)
	case "knots":
		return new(simv3b.KnotsMessage)
	case "label":
		return new(simv3b.LabelMessage)
	case "level":
		return new(simv3b.LevelMessage)
	case "list":
		return new(simv3b.ListMessage)
	case "meta":
		return new(simv3b.MetaMessage)
	case "mixed":
		return new(simv3b.MixedMessage)
	case "news":
		return new(simv3b.NewsMessage)
	case "order":
		return new(simv3b.OrderMessage)
	case "ping":
		return new(simv3b.PingMessage)
	case "pingb":
		return new(simv3b.PingbMessage)
	case "pingd":
		return new(simv3b.PingdMessage)
	case "pong":
		return new(simv3b.PongMessage)
	case "pongb":
		return new(simv3b.PongbMessage)
	case "pongd":
		return new(simv3b.PongdMessage)
	case "ratio":
		return new(simv3b.RatioMessage)
	case "ratio32":
		return new(simv3b.Ratio32Message)
	case "room":
		return new(simv3b.TalkMessage)
	case "rows":
		return new(simv3b.RowsMessage)
	case "seat":
		return new(simv3b.TalkMessage)
	case "small":
		return new(simv3b.SmallMessage)
	case "stamp":
		return new(simv3b.StampMessage)
	case "text":
		return new(simv3b.TextMessage)
	case "traced":
		return new(simv3b.TracedMessage)
	case "twisty":
		return new(simv3b.TwistyMessage)
	case "union":
		return new(simv3b.UnionMessage)
	case "when":
		return new(simv3b.WhenMessage)
	}
	panic("no operation " + op)
}

func deref_simv3b(v any) any {
	switch t := v.(type) {
	case *simv3b.AnswerMessage:
		return *t
	case *simv3b.AskMessage:
		return *t
	case *simv3b.BigMessage:
		return *t
	case *simv3b.BrandedMessage:
		return *t
	case *simv3b.CallMessage:
		return *t
	case *simv3b.CallpMessage:
		return *t
	case *simv3b.CountsMessage:
		return *t
	case *simv3b.ExtraMessage:
		return *t
	case *simv3b.KnotsMessage:
		return *t
	case *simv3b.LabelMessage:
		return *t
	case *simv3b.LevelMessage:
		return *t
	case *simv3b.ListMessage:
		return *t
	case *simv3b.MetaMessage:
		return *t
	case *simv3b.MixedMessage:
		return *t
	case *simv3b.NewsMessage:
		return *t
	case *simv3b.OrderMessage:
		return *t
	case *simv3b.PingMessage:
		return *t
	case *simv3b.PingbMessage:
		return *t
	case *simv3b.PingdMessage:
		return *t
	case *simv3b.PongMessage:
		return *t
	case *simv3b.PongbMessage:
		return *t
	case *simv3b.PongdMessage:
		return *t
	case *simv3b.RatioMessage:
		return *t
	case *simv3b.Ratio32Message:
		return *t
	case *simv3b.RowsMessage:
		return *t
	case *simv3b.SmallMessage:
		return *t
	case *simv3b.StampMessage:
		return *t
	case *simv3b.TalkMessage:
		return *t
	case *simv3b.TextMessage:
		return *t
	case *simv3b.TracedMessage:
		return *t
	case *simv3b.TwistyMessage:
		return *t
	case *simv3b.UnionMessage:
		return *t
	case *simv3b.WhenMessage:
		return *t
	}
	return v
}

type ctlApp_simv3b struct{ c *simv3b.AppController }

func newApp_simv3b(bc extensions.BrokerController, o CtlOpts) (Ctl, error) {
	var opts []simv3b.ControllerOption
	if o.Logger != nil {
		opts = append(opts, simv3b.WithLogger(o.Logger))
	}
	if o.Middlewares != nil {
		opts = append(opts, simv3b.WithMiddlewares(o.Middlewares...))
	}
	if o.ErrorHandler != nil {
		opts = append(opts, simv3b.WithErrorHandler(o.ErrorHandler))
	}
	c, err := simv3b.NewAppController(bc, opts...)
	if err != nil {
		return nil, err
	}
	return &ctlApp_simv3b{c}, nil
}

func (x *ctlApp_simv3b) Provider() string { return "app" }

func (x *ctlApp_simv3b) Subscribe(ctx context.Context, op string, par []string, h Handler) error {
	switch op {
	case "text":
		return subscribing(ctx, x.c.SubscribeToTextOperation, h, "text")
	case "small":
		return subscribing(ctx, x.c.SubscribeToSmallOperation, h, "small")
	case "big":
		return subscribing(ctx, x.c.SubscribeToBigOperation, h, "big")
	case "ratio":
		return subscribing(ctx, x.c.SubscribeToRatioOperation, h, "ratio")
	case "ratio32":
		return subscribing(ctx, x.c.SubscribeToRatio32Operation, h, "ratio32")
	case "order":
		return subscribing(ctx, x.c.SubscribeToOrderOperation, h, "order")
	case "list":
		return subscribing(ctx, x.c.SubscribeToListOperation, h, "list")
	case "stamp":
		return subscribing(ctx, x.c.SubscribeToStampOperation, h, "stamp")
	case "room":
		return subscribingP(ctx, x.c.SubscribeToRoomOperation, simv3b.RoomChannelParameters{RoomId: par[0]}, h, "room")
	case "seat":
		return subscribingP(ctx, x.c.SubscribeToSeatOperation, simv3b.SeatChannelParameters{RoomId: par[0], SeatId: par[1]}, h, "seat")
	case "ping":
		return subscribing(ctx, x.c.SubscribeToPingOperation, h, "ping")
	case "pingb":
		return subscribing(ctx, x.c.SubscribeToPingbOperation, h, "pingb")
	case "extra":
		return subscribing(ctx, x.c.SubscribeToExtraOperation, h, "extra")
	case "counts":
		return subscribing(ctx, x.c.SubscribeToCountsOperation, h, "counts")
	case "meta":
		return subscribing(ctx, x.c.SubscribeToMetaOperation, h, "meta")
	case "when":
		return subscribing(ctx, x.c.SubscribeToWhenOperation, h, "when")
	case "level":
		return subscribing(ctx, x.c.SubscribeToLevelOperation, h, "level")
	case "label":
		return subscribing(ctx, x.c.SubscribeToLabelOperation, h, "label")
	case "rows":
		return subscribing(ctx, x.c.SubscribeToRowsOperation, h, "rows")
	case "union":
		return subscribing(ctx, x.c.SubscribeToUnionOperation, h, "union")
	case "pingd":
		return subscribing(ctx, x.c.SubscribeToPingdOperation, h, "pingd")
	case "traced":
		return subscribing(ctx, x.c.SubscribeToTracedOperation, h, "traced")
	case "chat":
		return subscribing(ctx, x.c.SubscribeToChatOperation, h, "chat")
	case "mixed":
		return subscribing(ctx, x.c.SubscribeToMixedOperation, h, "mixed")
	case "knots":
		return subscribing(ctx, x.c.SubscribeToKnotsOperation, h, "knots")
	case "branded":
		return subscribing(ctx, x.c.SubscribeToBrandedOperation, h, "branded")
	case "twisty":
		return subscribing(ctx, x.c.SubscribeToTwistyOperation, h, "twisty")
	case "ask":
		return subscribing(ctx, x.c.SubscribeToAskOperation, h, "ask")
	case "call":
		return subscribing(ctx, x.c.SubscribeToCallOperation, h, "call")
	case "callp":
		return subscribing(ctx, x.c.SubscribeToCallpOperation, h, "callp")
	}
	panic("no operation " + op)
}

func (x *ctlApp_simv3b) Unsubscribe(ctx context.Context, op string, par []string) {
	switch op {
	case "text":
		x.c.UnsubscribeFromTextOperation(ctx)
	case "small":
		x.c.UnsubscribeFromSmallOperation(ctx)
	case "big":
		x.c.UnsubscribeFromBigOperation(ctx)
	case "ratio":
		x.c.UnsubscribeFromRatioOperation(ctx)
	case "ratio32":
		x.c.UnsubscribeFromRatio32Operation(ctx)
	case "order":
		x.c.UnsubscribeFromOrderOperation(ctx)
	case "list":
		x.c.UnsubscribeFromListOperation(ctx)
	case "stamp":
		x.c.UnsubscribeFromStampOperation(ctx)
	case "room":
		x.c.UnsubscribeFromRoomOperation(ctx, simv3b.RoomChannelParameters{RoomId: par[0]})
	case "seat":
		x.c.UnsubscribeFromSeatOperation(ctx, simv3b.SeatChannelParameters{RoomId: par[0], SeatId: par[1]})
	case "ping":
		x.c.UnsubscribeFromPingOperation(ctx)
	case "pingb":
		x.c.UnsubscribeFromPingbOperation(ctx)
	case "extra":
		x.c.UnsubscribeFromExtraOperation(ctx)
	case "counts":
		x.c.UnsubscribeFromCountsOperation(ctx)
	case "meta":
		x.c.UnsubscribeFromMetaOperation(ctx)
	case "when":
		x.c.UnsubscribeFromWhenOperation(ctx)
	case "level":
		x.c.UnsubscribeFromLevelOperation(ctx)
	case "label":
		x.c.UnsubscribeFromLabelOperation(ctx)
	case "rows":
		x.c.UnsubscribeFromRowsOperation(ctx)
	case "union":
		x.c.UnsubscribeFromUnionOperation(ctx)
	case "pingd":
		x.c.UnsubscribeFromPingdOperation(ctx)
	case "traced":
		x.c.UnsubscribeFromTracedOperation(ctx)
	case "chat":
		x.c.UnsubscribeFromChatOperation(ctx)
	case "mixed":
		x.c.UnsubscribeFromMixedOperation(ctx)
	case "knots":
		x.c.UnsubscribeFromKnotsOperation(ctx)
	case "branded":
		x.c.UnsubscribeFromBrandedOperation(ctx)
	case "twisty":
		x.c.UnsubscribeFromTwistyOperation(ctx)
	case "ask":
		x.c.UnsubscribeFromAskOperation(ctx)
	case "call":
		x.c.UnsubscribeFromCallOperation(ctx)
	case "callp":
		x.c.UnsubscribeFromCallpOperation(ctx)
	default:
		panic("no operation " + op)
	}
}

type allApp_simv3b struct{ h Handler }

func (a allApp_simv3b) TextOperationReceived(ctx context.Context, m simv3b.TextMessage) error {
	return a.h(ctx, "text", m)
}
func (a allApp_simv3b) SmallOperationReceived(ctx context.Context, m simv3b.SmallMessage) error {
	return a.h(ctx, "small", m)
}
func (a allApp_simv3b) BigOperationReceived(ctx context.Context, m simv3b.BigMessage) error {
	return a.h(ctx, "big", m)
}
func (a allApp_simv3b) RatioOperationReceived(ctx context.Context, m simv3b.RatioMessage) error {
	return a.h(ctx, "ratio", m)
}
func (a allApp_simv3b) Ratio32OperationReceived(ctx context.Context, m simv3b.Ratio32Message) error {
	return a.h(ctx, "ratio32", m)
}
func (a allApp_simv3b) OrderOperationReceived(ctx context.Context, m simv3b.OrderMessage) error {
	return a.h(ctx, "order", m)
}
func (a allApp_simv3b) ListOperationReceived(ctx context.Context, m simv3b.ListMessage) error {
	return a.h(ctx, "list", m)
}
func (a allApp_simv3b) StampOperationReceived(ctx context.Context, m simv3b.StampMessage) error {
	return a.h(ctx, "stamp", m)
}
func (a allApp_simv3b) RoomOperationReceived(ctx context.Context, m simv3b.TalkMessage) error {
	return a.h(ctx, "room", m)
}
func (a allApp_simv3b) SeatOperationReceived(ctx context.Context, m simv3b.TalkMessage) error {
	return a.h(ctx, "seat", m)
}
func (a allApp_simv3b) PingOperationReceived(ctx context.Context, m simv3b.PingMessage) error {
	return a.h(ctx, "ping", m)
}
func (a allApp_simv3b) PingbOperationReceived(ctx context.Context, m simv3b.PingbMessage) error {
	return a.h(ctx, "pingb", m)
}
func (a allApp_simv3b) ExtraOperationReceived(ctx context.Context, m simv3b.ExtraMessage) error {
	return a.h(ctx, "extra", m)
}
func (a allApp_simv3b) CountsOperationReceived(ctx context.Context, m simv3b.CountsMessage) error {
	return a.h(ctx, "counts", m)
}
func (a allApp_simv3b) MetaOperationReceived(ctx context.Context, m simv3b.MetaMessage) error {
	return a.h(ctx, "meta", m)
}
func (a allApp_simv3b) WhenOperationReceived(ctx context.Context, m simv3b.WhenMessage) error {
	return a.h(ctx, "when", m)
}
func (a allApp_simv3b) LevelOperationReceived(ctx context.Context, m simv3b.LevelMessage) error {
	return a.h(ctx, "level", m)
}
func (a allApp_simv3b) LabelOperationReceived(ctx context.Context, m simv3b.LabelMessage) error {
	return a.h(ctx, "label", m)
}
func (a allApp_simv3b) RowsOperationReceived(ctx context.Context, m simv3b.RowsMessage) error {
	return a.h(ctx, "rows", m)
}
func (a allApp_simv3b) UnionOperationReceived(ctx context.Context, m simv3b.UnionMessage) error {
	return a.h(ctx, "union", m)
}
func (a allApp_simv3b) PingdOperationReceived(ctx context.Context, m simv3b.PingdMessage) error {
	return a.h(ctx, "pingd", m)
}
func (a allApp_simv3b) TracedOperationReceived(ctx context.Context, m simv3b.TracedMessage) error {
	return a.h(ctx, "traced", m)
}
func (a allApp_simv3b) ChatOperationReceived(ctx context.Context, m simv3b.TalkMessage) error {
	return a.h(ctx, "chat", m)
}
func (a allApp_simv3b) MixedOperationReceived(ctx context.Context, m simv3b.MixedMessage) error {
	return a.h(ctx, "mixed", m)
}
func (a allApp_simv3b) KnotsOperationReceived(ctx context.Context, m simv3b.KnotsMessage) error {
	return a.h(ctx, "knots", m)
}
func (a allApp_simv3b) BrandedOperationReceived(ctx context.Context, m simv3b.BrandedMessage) error {
	return a.h(ctx, "branded", m)
}
func (a allApp_simv3b) TwistyOperationReceived(ctx context.Context, m simv3b.TwistyMessage) error {
	return a.h(ctx, "twisty", m)
}
func (a allApp_simv3b) AskOperationReceived(ctx context.Context, m simv3b.AskMessage) error {
	return a.h(ctx, "ask", m)
}
func (a allApp_simv3b) CallOperationReceived(ctx context.Context, m simv3b.CallMessage) error {
	return a.h(ctx, "call", m)
}
func (a allApp_simv3b) CallpOperationReceived(ctx context.Context, m simv3b.CallpMessage) error {
	return a.h(ctx, "callp", m)
}

func (x *ctlApp_simv3b) SubscribeAll(ctx context.Context, h Handler) error {
	return x.c.SubscribeToAllChannels(ctx, allApp_simv3b{h})
}

func (x *ctlApp_simv3b) UnsubscribeAll(ctx context.Context) { x.c.UnsubscribeFromAllChannels(ctx) }

func (x *ctlApp_simv3b) Close(ctx context.Context) { x.c.Close(ctx) }

func (x *ctlApp_simv3b) RecvOps() []string {
	return []string{"text", "small", "big", "ratio", "ratio32", "order", "list", "stamp", "room", "seat", "ping", "pingb", "extra", "counts", "meta", "when", "level", "label", "rows", "union", "pingd", "traced", "chat", "mixed", "knots", "branded", "twisty", "ask", "call", "callp"}
}

func (x *ctlApp_simv3b) SendOps() []string {
	return []string{"news", "chatter", "pong", "pongb", "pongd", "answer"}
}

func (x *ctlApp_simv3b) Send(ctx context.Context, op string, par []string, m any) error {
	switch op {
	case "news":
		return sending(ctx, x.c.SendAsNewsOperation, m, "news")
	case "chatter":
		return sending(ctx, x.c.SendAsChatterOperation, m, "chatter")
	case "pong":
		return sending(ctx, x.c.SendAsReplyToPingOperation, m, "pong")
	case "pongb":
		return sending(ctx, x.c.SendAsReplyToPingbOperation, m, "pongb")
	case "pongd":
		return sending(ctx, x.c.SendAsReplyToPingdOperation, m, "pongd")
	case "answer":
		return sending(ctx, x.c.SendAsReplyToAskOperation, m, "answer")
	}
	panic("no operation " + op)
}

func (x *ctlApp_simv3b) Request(ctx context.Context, op string, m any) (any, error) {
	switch op {
	}
	return nil, fmt.Errorf("no request %s", op)
}

func (x *ctlApp_simv3b) Reply(ctx context.Context, op string, req any, body string) error {
	switch op {
	case "ping":
		return replying(ctx, x.c.ReplyToPingOperation, req, body, "ping")
	case "pingb":
		return replying(ctx, x.c.ReplyToPingbOperation, req, body, "pingb")
	case "pingd":
		return replying(ctx, x.c.ReplyToPingdOperation, req, body, "pingd")
	case "ask":
		return replying(ctx, x.c.ReplyToAskOperation, req, body, "ask")
	case "call":
		return replying(ctx, x.c.ReplyToCallOperation, req, body, "call")
	case "callp":
		return replying(ctx, x.c.ReplyToCallpOperation, req, body, "callp")
	}
	return fmt.Errorf("no reply %s", op)
}

type ctlUser_simv3b struct{ c *simv3b.UserController }

func newUser_simv3b(bc extensions.BrokerController, o CtlOpts) (Ctl, error) {
	var opts []simv3b.ControllerOption
	if o.Logger != nil {
		opts = append(opts, simv3b.WithLogger(o.Logger))
	}
	if o.Middlewares != nil {
		opts = append(opts, simv3b.WithMiddlewares(o.Middlewares...))
	}
	if o.ErrorHandler != nil {
		opts = append(opts, simv3b.WithErrorHandler(o.ErrorHandler))
	}
	c, err := simv3b.NewUserController(bc, opts...)
	if err != nil {
		return nil, err
	}
	return &ctlUser_simv3b{c}, nil
}

func (x *ctlUser_simv3b) Provider() string { return "user" }

func (x *ctlUser_simv3b) Subscribe(ctx context.Context, op string, par []string, h Handler) error {
	switch op {
	case "news":
		return subscribing(ctx, x.c.SubscribeToNewsOperation, h, "news")
	case "chatter":
		return subscribing(ctx, x.c.SubscribeToChatterOperation, h, "chatter")
	}
	panic("no operation " + op)
}

func (x *ctlUser_simv3b) Unsubscribe(ctx context.Context, op string, par []string) {
	switch op {
	case "news":
		x.c.UnsubscribeFromNewsOperation(ctx)
	case "chatter":
		x.c.UnsubscribeFromChatterOperation(ctx)
	default:
		panic("no operation " + op)
	}
}

type allUser_simv3b struct{ h Handler }

func (a allUser_simv3b) NewsOperationReceived(ctx context.Context, m simv3b.NewsMessage) error {
	return a.h(ctx, "news", m)
}
func (a allUser_simv3b) ChatterOperationReceived(ctx context.Context, m simv3b.CountsMessage) error {
	return a.h(ctx, "chatter", m)
}

func (x *ctlUser_simv3b) SubscribeAll(ctx context.Context, h Handler) error {
	return x.c.SubscribeToAllChannels(ctx, allUser_simv3b{h})
}

func (x *ctlUser_simv3b) UnsubscribeAll(ctx context.Context) { x.c.UnsubscribeFromAllChannels(ctx) }

func (x *ctlUser_simv3b) Close(ctx context.Context) { x.c.Close(ctx) }

func (x *ctlUser_simv3b) RecvOps() []string { return []string{"news", "chatter"} }

func (x *ctlUser_simv3b) SendOps() []string {
	return []string{"text", "small", "big", "ratio", "ratio32", "order", "list", "stamp", "room", "seat", "ping", "pingb", "extra", "counts", "meta", "when", "level", "label", "rows", "union", "pingd", "traced", "chat", "mixed", "knots", "branded", "twisty", "ask", "call", "callp"}
}

func (x *ctlUser_simv3b) Send(ctx context.Context, op string, par []string, m any) error {
	switch op {
	case "text":
		return sending(ctx, x.c.SendToTextOperation, m, "text")
	case "small":
		return sending(ctx, x.c.SendToSmallOperation, m, "small")
	case "big":
		return sending(ctx, x.c.SendToBigOperation, m, "big")
	case "ratio":
		return sending(ctx, x.c.SendToRatioOperation, m, "ratio")
	case "ratio32":
		return sending(ctx, x.c.SendToRatio32Operation, m, "ratio32")
	case "order":
		return sending(ctx, x.c.SendToOrderOperation, m, "order")
	case "list":
		return sending(ctx, x.c.SendToListOperation, m, "list")
	case "stamp":
		return sending(ctx, x.c.SendToStampOperation, m, "stamp")
	case "room":
		return sendingP(ctx, x.c.SendToRoomOperation, simv3b.RoomChannelParameters{RoomId: par[0]}, m, "room")
	case "seat":
		return sendingP(ctx, x.c.SendToSeatOperation, simv3b.SeatChannelParameters{RoomId: par[0], SeatId: par[1]}, m, "seat")
	case "ping":
		return sending(ctx, x.c.SendToPingOperation, m, "ping")
	case "pingb":
		return sending(ctx, x.c.SendToPingbOperation, m, "pingb")
	case "extra":
		return sending(ctx, x.c.SendToExtraOperation, m, "extra")
	case "counts":
		return sending(ctx, x.c.SendToCountsOperation, m, "counts")
	case "meta":
		return sending(ctx, x.c.SendToMetaOperation, m, "meta")
	case "when":
		return sending(ctx, x.c.SendToWhenOperation, m, "when")
	case "level":
		return sending(ctx, x.c.SendToLevelOperation, m, "level")
	case "label":
		return sending(ctx, x.c.SendToLabelOperation, m, "label")
	case "rows":
		return sending(ctx, x.c.SendToRowsOperation, m, "rows")
	case "union":
		return sending(ctx, x.c.SendToUnionOperation, m, "union")
	case "pingd":
		return sending(ctx, x.c.SendToPingdOperation, m, "pingd")
	case "traced":
		return sending(ctx, x.c.SendToTracedOperation, m, "traced")
	case "chat":
		return sending(ctx, x.c.SendToChatOperation, m, "chat")
	case "mixed":
		return sending(ctx, x.c.SendToMixedOperation, m, "mixed")
	case "knots":
		return sending(ctx, x.c.SendToKnotsOperation, m, "knots")
	case "branded":
		return sending(ctx, x.c.SendToBrandedOperation, m, "branded")
	case "twisty":
		return sending(ctx, x.c.SendToTwistyOperation, m, "twisty")
	case "ask":
		return sending(ctx, x.c.SendToAskOperation, m, "ask")
	case "call":
		return sending(ctx, x.c.SendToCallOperation, m, "call")
	case "callp":
		return sending(ctx, x.c.SendToCallpOperation, m, "callp")
	}
	panic("no operation " + op)
}

func (x *ctlUser_simv3b) Request(ctx context.Context, op string, m any) (any, error) {
	switch op {
	case "ping":
		return requesting(ctx, x.c.RequestToPingOperation, m, "ping")
	case "pingb":
		return requesting(ctx, x.c.RequestToPingbOperation, m, "pingb")
	case "pingd":
		return requesting(ctx, x.c.RequestToPingdOperation, m, "pingd")
	case "ask":
		return requesting(ctx, x.c.RequestToAskOperation, m, "ask")
	case "call":
		return requesting(ctx, x.c.RequestToCallOperation, m, "call")
	case "callp":
		return requesting(ctx, x.c.RequestToCallpOperation, m, "callp")
	}
	return nil, fmt.Errorf("no request %s", op)
}

func (x *ctlUser_simv3b) Reply(ctx context.Context, op string, req any, body string) error {
	switch op {
	}
	return fmt.Errorf("no reply %s", op)
}
