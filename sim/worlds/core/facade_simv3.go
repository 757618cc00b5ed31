// Code generated by tools/mkfacade.py; DO NOT EDIT.

package main

import (
	"context"
	"fmt"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifsim/gen/simv3"
)

func init() {
	packages["simv3"] = &Package{Name: "simv3", V: 3, NewApp: newApp_simv3, NewUser: newUser_simv3, New: new_simv3, Deref: deref_simv3}
}

func new_simv3(op string) any {
	switch op {
	case "answer":
		return new(simv3.AnswerMessage)
	case "ask":
		return new(simv3.AskMessage)
	case "big":
		return new(simv3.BigMessage)
	case "branded":
		return new(simv3.BrandedMessage)
	case "call":
		return new(simv3.CallMessage)
	case "callp":
		return new(simv3.CallpMessage)
	case "chat":
		return new(simv3.TalkMessage)
	case "chatter":
		return new(simv3.CountsMessage)
	case "counts":
		return new(simv3.CountsMessage)
	case "extra":
		return new(simv3.ExtraMessage)
	case "knots":
		return new(simv3.KnotsMessage)
	case "label":
		return new(simv3.LabelMessage)
	case "level":
		return new(simv3.LevelMessage)
	case "list":
		return new(simv3.ListMessage)
	case "meta":
		return new(simv3.MetaMessage)
	case "mixed":
		return new(simv3.MixedMessage)
	case "news":
		return new(simv3.NewsMessage)
	case "order":
		return new(simv3.OrderMessage)
	case "ping":
		return new(simv3.PingMessage)
	case "pingb":
		return new(simv3.PingbMessage)
	case "pingd":
		return new(simv3.PingdMessage)
	case "pong":
		return new(simv3.PongMessage)
	case "pongb":
		return new(simv3.PongbMessage)
	case "pongd":
		return new(simv3.PongdMessage)
	case "ratio":
		return new(simv3.RatioMessage)
	case "ratio32":
		return new(simv3.Ratio32Message)
	case "room":
		return new(simv3.TalkMessage)
	case "rows":
		return new(simv3.RowsMessage)
	case "seat":
		return new(simv3.TalkMessage)
	case "small":
		return new(simv3.SmallMessage)
	case "stamp":
		return new(simv3.StampMessage)
	case "text":
		return new(simv3.TextMessage)
	case "traced":
		return new(simv3.TracedMessage)
	case "twisty":
		return new(simv3.TwistyMessage)
	case "union":
		return new(simv3.UnionMessage)
	case "when":
		return new(simv3.WhenMessage)
	}
	panic("no operation " + op)
}

func deref_simv3(v any) any {
	switch t := v.(type) {
	case *simv3.AnswerMessage:
		return *t
	case *simv3.AskMessage:
		return *t
	case *simv3.BigMessage:
		return *t
	case *simv3.BrandedMessage:
		return *t
	case *simv3.CallMessage:
		return *t
	case *simv3.CallpMessage:
		return *t
	case *simv3.CountsMessage:
		return *t
	case *simv3.ExtraMessage:
		return *t
	case *simv3.KnotsMessage:
		return *t
	case *simv3.LabelMessage:
		return *t
	case *simv3.LevelMessage:
		return *t
	case *simv3.ListMessage:
		return *t
	case *simv3.MetaMessage:
		return *t
	case *simv3.MixedMessage:
		return *t
	case *simv3.NewsMessage:
		return *t
	case *simv3.OrderMessage:
		return *t
	case *simv3.PingMessage:
		return *t
	case *simv3.PingbMessage:
		return *t
	case *simv3.PingdMessage:
		return *t
	case *simv3.PongMessage:
		return *t
	case *simv3.PongbMessage:
		return *t
	case *simv3.PongdMessage:
		return *t
	case *simv3.RatioMessage:
		return *t
	case *simv3.Ratio32Message:
		return *t
	case *simv3.RowsMessage:
		return *t
	case *simv3.SmallMessage:
		return *t
	case *simv3.StampMessage:
		return *t
	case *simv3.TalkMessage:
		return *t
	case *simv3.TextMessage:
		return *t
	case *simv3.TracedMessage:
		return *t
	case *simv3.TwistyMessage:
		return *t
	case *simv3.UnionMessage:
		return *t
	case *simv3.WhenMessage:
		return *t
	}
	return v
}

type ctlApp_simv3 struct{ c *simv3.AppController }

func newApp_simv3(bc extensions.BrokerController, o CtlOpts) (Ctl, error) {
	var opts []simv3.ControllerOption
	if o.Logger != nil {
		opts = append(opts, simv3.WithLogger(o.Logger))
	}
	if o.Middlewares != nil {
		opts = append(opts, simv3.WithMiddlewares(o.Middlewares...))
	}
	if o.ErrorHandler != nil {
		opts = append(opts, simv3.WithErrorHandler(o.ErrorHandler))
	}
	c, err := simv3.NewAppController(bc, opts...)
	if err != nil {
		return nil, err
	}
	return &ctlApp_simv3{c}, nil
}

func (x *ctlApp_simv3) Provider() string { return "app" }

func (x *ctlApp_simv3) Subscribe(ctx context.Context, op string, par []string, h Handler) error {
	switch op {
	case "text":
		return subscribing(ctx, x.c.SubscribeToTextOperation, h, "text")
	case "small":
		return subscribing(ctx, x.c.SubscribeToSmallOperation, h, "small")
	case "big":
		return subscribing(ctx, x.c.SubscribeToBigOperation, h, "big")
	case "ratio":
		return subscribing(ctx, x.c.SubscribeToRatioOperation, h, "ratio")
	case "ratio32":
		return subscribing(ctx, x.c.SubscribeToRatio32Operation, h, "ratio32")
	case "order":
		return subscribing(ctx, x.c.SubscribeToOrderOperation, h, "order")
	case "list":
		return subscribing(ctx, x.c.SubscribeToListOperation, h, "list")
	case "stamp":
		return subscribing(ctx, x.c.SubscribeToStampOperation, h, "stamp")
	case "room":
		return subscribingP(ctx, x.c.SubscribeToRoomOperation, simv3.RoomChannelParameters{RoomId: par[0]}, h, "room")
	case "seat":
		return subscribingP(ctx, x.c.SubscribeToSeatOperation, simv3.SeatChannelParameters{RoomId: par[0], SeatId: par[1]}, h, "seat")
	case "ping":
		return subscribing(ctx, x.c.SubscribeToPingOperation, h, "ping")
	case "pingb":
		return subscribing(ctx, x.c.SubscribeToPingbOperation, h, "pingb")
	case "extra":
		return subscribing(ctx, x.c.SubscribeToExtraOperation, h, "extra")
	case "counts":
		return subscribing(ctx, x.c.SubscribeToCountsOperation, h, "counts")
	case "meta":
		return subscribing(ctx, x.c.SubscribeToMetaOperation, h, "meta")
	case "when":
		return subscribing(ctx, x.c.SubscribeToWhenOperation, h, "when")
	case "level":
		return subscribing(ctx, x.c.SubscribeToLevelOperation, h, "level")
	case "label":
		return subscribing(ctx, x.c.SubscribeToLabelOperation, h, "label")
	case "rows":
		return subscribing(ctx, x.c.SubscribeToRowsOperation, h, "rows")
	case "union":
		return subscribing(ctx, x.c.SubscribeToUnionOperation, h, "union")
	case "pingd":
		return subscribing(ctx, x.c.SubscribeToPingdOperation, h, "pingd")
	case "traced":
		return subscribing(ctx, x.c.SubscribeToTracedOperation, h, "traced")
	case "chat":
		return subscribing(ctx, x.c.SubscribeToChatOperation, h, "chat")
	case "mixed":
		return subscribing(ctx, x.c.SubscribeToMixedOperation, h, "mixed")
	case "knots":
		return subscribing(ctx, x.c.SubscribeToKnotsOperation, h, "knots")
	case "branded":
		return subscribing(ctx, x.c.SubscribeToBrandedOperation, h, "branded")
	case "twisty":
		return subscribing(ctx, x.c.SubscribeToTwistyOperation, h, "twisty")
	case "ask":
		return subscribing(ctx, x.c.SubscribeToAskOperation, h, "ask")
	case "call":
		return subscribing(ctx, x.c.SubscribeToCallOperation, h, "call")
	case "callp":
		return subscribing(ctx, x.c.SubscribeToCallpOperation, h, "callp")
	}
	panic("no operation " + op)
}

func (x *ctlApp_simv3) Unsubscribe(ctx context.Context, op string, par []string) {
	switch op {
	case "text":
		x.c.UnsubscribeFromTextOperation(ctx)
	case "small":
		x.c.UnsubscribeFromSmallOperation(ctx)
	case "big":
		x.c.UnsubscribeFromBigOperation(ctx)
	case "ratio":
		x.c.UnsubscribeFromRatioOperation(ctx)
	case "ratio32":
		x.c.UnsubscribeFromRatio32Operation(ctx)
	case "order":
		x.c.UnsubscribeFromOrderOperation(ctx)
	case "list":
		x.c.UnsubscribeFromListOperation(ctx)
	case "stamp":
		x.c.UnsubscribeFromStampOperation(ctx)
	case "room":
		x.c.UnsubscribeFromRoomOperation(ctx, simv3.RoomChannelParameters{RoomId: par[0]})
	case "seat":
		x.c.UnsubscribeFromSeatOperation(ctx, simv3.SeatChannelParameters{RoomId: par[0], SeatId: par[1]})
	case "ping":
		x.c.UnsubscribeFromPingOperation(ctx)
	case "pingb":
		x.c.UnsubscribeFromPingbOperation(ctx)
	case "extra":
		x.c.UnsubscribeFromExtraOperation(ctx)
	case "counts":
		x.c.UnsubscribeFromCountsOperation(ctx)
	case "meta":
		x.c.UnsubscribeFromMetaOperation(ctx)
	case "when":
		x.c.UnsubscribeFromWhenOperation(ctx)
	case "level":
		x.c.UnsubscribeFromLevelOperation(ctx)
	case "label":
		x.c.UnsubscribeFromLabelOperation(ctx)
	case "rows":
		x.c.UnsubscribeFromRowsOperation(ctx)
	case "union":
		x.c.UnsubscribeFromUnionOperation(ctx)
	case "pingd":
		x.c.UnsubscribeFromPingdOperation(ctx)
	case "traced":
		x.c.UnsubscribeFromTracedOperation(ctx)
	case "chat":
		x.c.UnsubscribeFromChatOperation(ctx)
	case "mixed":
		x.c.UnsubscribeFromMixedOperation(ctx)
	case "knots":
		x.c.UnsubscribeFromKnotsOperation(ctx)
	case "branded":
		x.c.UnsubscribeFromBrandedOperation(ctx)
	case "twisty":
		x.c.UnsubscribeFromTwistyOperation(ctx)
	case "ask":
		x.c.UnsubscribeFromAskOperation(ctx)
	case "call":
		x.c.UnsubscribeFromCallOperation(ctx)
	case "callp":
		x.c.UnsubscribeFromCallpOperation(ctx)
	default:
		panic("no operation " + op)
	}
}

type allApp_simv3 struct{ h Handler }

func (a allApp_simv3) TextOperationReceived(ctx context.Context, m simv3.TextMessage) error {
	return a.h(ctx, "text", m)
}
func (a allApp_simv3) SmallOperationReceived(ctx context.Context, m simv3.SmallMessage) error {
	return a.h(ctx, "small", m)
}
func (a allApp_simv3) BigOperationReceived(ctx context.Context, m simv3.BigMessage) error {
	return a.h(ctx, "big", m)
}
func (a allApp_simv3) RatioOperationReceived(ctx context.Context, m simv3.RatioMessage) error {
	return a.h(ctx, "ratio", m)
}
func (a allApp_simv3) Ratio32OperationReceived(ctx context.Context, m simv3.Ratio32Message) error {
	return a.h(ctx, "ratio32", m)
}
func (a allApp_simv3) OrderOperationReceived(ctx context.Context, m simv3.OrderMessage) error {
	return a.h(ctx, "order", m)
}
func (a allApp_simv3) ListOperationReceived(ctx context.Context, m simv3.ListMessage) error {
	return a.h(ctx, "list", m)
}
func (a allApp_simv3) StampOperationReceived(ctx context.Context, m simv3.StampMessage) error {
	return a.h(ctx, "stamp", m)
}
func (a allApp_simv3) RoomOperationReceived(ctx context.Context, m simv3.TalkMessage) error {
	return a.h(ctx, "room", m)
}
func (a allApp_simv3) SeatOperationReceived(ctx context.Context, m simv3.TalkMessage) error {
	return a.h(ctx, "seat", m)
}
func (a allApp_simv3) PingOperationReceived(ctx context.Context, m simv3.PingMessage) error {
	return a.h(ctx, "ping", m)
}
func (a allApp_simv3) PingbOperationReceived(ctx context.Context, m simv3.PingbMessage) error {
	return a.h(ctx, "pingb", m)
}
func (a allApp_simv3) ExtraOperationReceived(ctx context.Context, m simv3.ExtraMessage) error {
	return a.h(ctx, "extra", m)
}
func (a allApp_simv3) CountsOperationReceived(ctx context.Context, m simv3.CountsMessage) error {
	return a.h(ctx, "counts", m)
}
func (a allApp_simv3) MetaOperationReceived(ctx context.Context, m simv3.MetaMessage) error {
	return a.h(ctx, "meta", m)
}
func (a allApp_simv3) WhenOperationReceived(ctx context.Context, m simv3.WhenMessage) error {
	return a.h(ctx, "when", m)
}
func (a allApp_simv3) LevelOperationReceived(ctx context.Context, m simv3.LevelMessage) error {
	return a.h(ctx, "level", m)
}
func (a allApp_simv3) LabelOperationReceived(ctx context.Context, m simv3.LabelMessage) error {
	return a.h(ctx, "label", m)
}
func (a allApp_simv3) RowsOperationReceived(ctx context.Context, m simv3.RowsMessage) error {
	return a.h(ctx, "rows", m)
}
func (a allApp_simv3) UnionOperationReceived(ctx context.Context, m simv3.UnionMessage) error {
	return a.h(ctx, "union", m)
}
func (a allApp_simv3) PingdOperationReceived(ctx context.Context, m simv3.PingdMessage) error {
	return a.h(ctx, "pingd", m)
}
func (a allApp_simv3) TracedOperationReceived(ctx context.Context, m simv3.TracedMessage) error {
	return a.h(ctx, "traced", m)
}
func (a allApp_simv3) ChatOperationReceived(ctx context.Context, m simv3.TalkMessage) error {
	return a.h(ctx, "chat", m)
}
func (a allApp_simv3) MixedOperationReceived(ctx context.Context, m simv3.MixedMessage) error {
	return a.h(ctx, "mixed", m)
}
func (a allApp_simv3) KnotsOperationReceived(ctx context.Context, m simv3.KnotsMessage) error {
	return a.h(ctx, "knots", m)
}
func (a allApp_simv3) BrandedOperationReceived(ctx context.Context, m simv3.BrandedMessage) error {
	return a.h(ctx, "branded", m)
}
func (a allApp_simv3) TwistyOperationReceived(ctx context.Context, m simv3.TwistyMessage) error {
	return a.h(ctx, "twisty", m)
}
func (a allApp_simv3) AskOperationReceived(ctx context.Context, m simv3.AskMessage) error {
	return a.h(ctx, "ask", m)
}
func (a allApp_simv3) CallOperationReceived(ctx context.Context, m simv3.CallMessage) error {
	return a.h(ctx, "call", m)
}
func (a allApp_simv3) CallpOperationReceived(ctx context.Context, m simv3.CallpMessage) error {
	return a.h(ctx, "callp", m)
}

func (x *ctlApp_simv3) SubscribeAll(ctx context.Context, h Handler) error {
	return x.c.SubscribeToAllChannels(ctx, allApp_simv3{h})
}

func (x *ctlApp_simv3) UnsubscribeAll(ctx context.Context) { x.c.UnsubscribeFromAllChannels(ctx) }

func (x *ctlApp_simv3) Close(ctx context.Context) { x.c.Close(ctx) }

func (x *ctlApp_simv3) RecvOps() []string {
	return []string{"text", "small", "big", "ratio", "ratio32", "order", "list", "stamp", "room", "seat", "ping", "pingb", "extra", "counts", "meta", "when", "level", "label", "rows", "union", "pingd", "traced", "chat", "mixed", "knots", "branded", "twisty", "ask", "call", "callp"}
}

func (x *ctlApp_simv3) SendOps() []string {
	return []string{"news", "chatter", "pong", "pongb", "pongd", "answer"}
}

func (x *ctlApp_simv3) Send(ctx context.Context, op string, par []string, m any) error {
	switch op {
	case "news":
		return sending(ctx, x.c.SendAsNewsOperation, m, "news")
	case "chatter":
		return sending(ctx, x.c.SendAsChatterOperation, m, "chatter")
	case "pong":
		return sending(ctx, x.c.SendAsReplyToPingOperation, m, "pong")
	case "pongb":
		return sending(ctx, x.c.SendAsReplyToPingbOperation, m, "pongb")
	case "pongd":
		return sending(ctx, x.c.SendAsReplyToPingdOperation, m, "pongd")
	case "answer":
		return sending(ctx, x.c.SendAsReplyToAskOperation, m, "answer")
	}
	panic("no operation " + op)
}

func (x *ctlApp_simv3) Request(ctx context.Context, op string, m any) (any, error) {
	switch op {
	}
	return nil, fmt.Errorf("no request %s", op)
}

func (x *ctlApp_simv3) Reply(ctx context.Context, op string, req any, body string) error {
	switch op {
	case "ping":
		return replying(ctx, x.c.ReplyToPingOperation, req, body, "ping")
	case "pingb":
		return replying(ctx, x.c.ReplyToPingbOperation, req, body, "pingb")
	case "pingd":
		return replying(ctx, x.c.ReplyToPingdOperation, req, body, "pingd")
	case "ask":
		return replying(ctx, x.c.ReplyToAskOperation, req, body, "ask")
	case "call":
		return replying(ctx, x.c.ReplyToCallOperation, req, body, "call")
	case "callp":
		return replying(ctx, x.c.ReplyToCallpOperation, req, body, "callp")
	}
	return fmt.Errorf("no reply %s", op)
}

type ctlUser_simv3 struct{ c *simv3.UserController }

func newUser_simv3(bc extensions.BrokerController, o CtlOpts) (Ctl, error) {
	var opts []simv3.ControllerOption
	if o.Logger != nil {
		opts = append(opts, simv3.WithLogger(o.Logger))
	}
	if o.Middlewares != nil {
		opts = append(opts, simv3.WithMiddlewares(o.Middlewares...))
	}
	if o.ErrorHandler != nil {
		opts = append(opts, simv3.WithErrorHandler(o.ErrorHandler))
	}
	c, err := simv3.NewUserController(bc, opts...)
	if err != nil {
		return nil, err
	}
	return &ctlUser_simv3{c}, nil
}

func (x *ctlUser_simv3) Provider() string { return "user" }

func (x *ctlUser_simv3) Subscribe(ctx context.Context, op string, par []string, h Handler) error {
	switch op {
	case "news":
		return subscribing(ctx, x.c.SubscribeToNewsOperation, h, "news")
	case "chatter":
		return subscribing(ctx, x.c.SubscribeToChatterOperation, h, "chatter")
	}
	panic("no operation " + op)
}

func (x *ctlUser_simv3) Unsubscribe(ctx context.Context, op string, par []string) {
	switch op {
	case "news":
		x.c.UnsubscribeFromNewsOperation(ctx)
	case "chatter":
		x.c.UnsubscribeFromChatterOperation(ctx)
	default:
		panic("no operation " + op)
	}
}

type allUser_simv3 struct{ h Handler }

func (a allUser_simv3) NewsOperationReceived(ctx context.Context, m simv3.NewsMessage) error {
	return a.h(ctx, "news", m)
}
func (a allUser_simv3) ChatterOperationReceived(ctx context.Context, m simv3.CountsMessage) error {
	return a.h(ctx, "chatter", m)
}

func (x *ctlUser_simv3) SubscribeAll(ctx context.Context, h Handler) error {
	return x.c.SubscribeToAllChannels(ctx, allUser_simv3{h})
}

func (x *ctlUser_simv3) UnsubscribeAll(ctx context.Context) { x.c.UnsubscribeFromAllChannels(ctx) }

func (x *ctlUser_simv3) Close(ctx context.Context) { x.c.Close(ctx) }

func (x *ctlUser_simv3) RecvOps() []string { return []string{"news", "chatter"} }

func (x *ctlUser_simv3) SendOps() []string {
	return []string{"text", "small", "big", "ratio", "ratio32", "order", "list", "stamp", "room", "seat", "ping", "pingb", "extra", "counts", "meta", "when", "level", "label", "rows", "union", "pingd", "traced", "chat", "mixed", "knots", "branded", "twisty", "ask", "call", "callp"}
}

func (x *ctlUser_simv3) Send(ctx context.Context, op string, par []string, m any) error {
	switch op {
	case "text":
		return sending(ctx, x.c.SendToTextOperation, m, "text")
	case "small":
		return sending(ctx, x.c.SendToSmallOperation, m, "small")
	case "big":
		return sending(ctx, x.c.SendToBigOperation, m, "big")
	case "ratio":
		return sending(ctx, x.c.SendToRatioOperation, m, "ratio")
	case "ratio32":
		return sending(ctx, x.c.SendToRatio32Operation, m, "ratio32")
	case "order":
		return sending(ctx, x.c.SendToOrderOperation, m, "order")
	case "list":
		return sending(ctx, x.c.SendToListOperation, m, "list")
	case "stamp":
		return sending(ctx, x.c.SendToStampOperation, m, "stamp")
	case "room":
		return sendingP(ctx, x.c.SendToRoomOperation, simv3.RoomChannelParameters{RoomId: par[0]}, m, "room")
	case "seat":
		return sendingP(ctx, x.c.SendToSeatOperation, simv3.SeatChannelParameters{RoomId: par[0], SeatId: par[1]}, m, "seat")
	case "ping":
		return sending(ctx, x.c.SendToPingOperation, m, "ping")
	case "pingb":
		return sending(ctx, x.c.SendToPingbOperation, m, "pingb")
	case "extra":
		return sending(ctx, x.c.SendToExtraOperation, m, "extra")
	case "counts":
		return sending(ctx, x.c.SendToCountsOperation, m, "counts")
	case "meta":
		return sending(ctx, x.c.SendToMetaOperation, m, "meta")
	case "when":
		return sending(ctx, x.c.SendToWhenOperation, m, "when")
	case "level":
		return sending(ctx, x.c.SendToLevelOperation, m, "level")
	case "label":
		return sending(ctx, x.c.SendToLabelOperation, m, "label")
	case "rows":
		return sending(ctx, x.c.SendToRowsOperation, m, "rows")
	case "union":
		return sending(ctx, x.c.SendToUnionOperation, m, "union")
	case "pingd":
		return sending(ctx, x.c.SendToPingdOperation, m, "pingd")
	case "traced":
		return sending(ctx, x.c.SendToTracedOperation, m, "traced")
	case "chat":
		return sending(ctx, x.c.SendToChatOperation, m, "chat")
	case "mixed":
		return sending(ctx, x.c.SendToMixedOperation, m, "mixed")
	case "knots":
		return sending(ctx, x.c.SendToKnotsOperation, m, "knots")
	case "branded":
		return sending(ctx, x.c.SendToBrandedOperation, m, "branded")
	case "twisty":
		return sending(ctx, x.c.SendToTwistyOperation, m, "twisty")
	case "ask":
		return sending(ctx, x.c.SendToAskOperation, m, "ask")
	case "call":
		return sending(ctx, x.c.SendToCallOperation, m, "call")
	case "callp":
		return sending(ctx, x.c.SendToCallpOperation, m, "callp")
	}
	panic("no operation " + op)
}

func (x *ctlUser_simv3) Request(ctx context.Context, op string, m any) (any, error) {
	switch op {
	case "ping":
		return requesting(ctx, x.c.RequestToPingOperation, m, "ping")
	case "pingb":
		return requesting(ctx, x.c.RequestToPingbOperation, m, "pingb")
	case "pingd":
		return requesting(ctx, x.c.RequestToPingdOperation, m, "pingd")
	case "ask":
		return requesting(ctx, x.c.RequestToAskOperation, m, "ask")
	case "call":
		return requesting(ctx, x.c.RequestToCallOperation, m, "call")
	case "callp":
		return requesting(ctx, x.c.RequestToCallpOperation, m, "callp")
	}
	return nil, fmt.Errorf("no request %s", op)
}

func (x *ctlUser_simv3) Reply(ctx context.Context, op string, req any, body string) error {
	switch op {
	}
	return fmt.Errorf("no reply %s", op)
}
