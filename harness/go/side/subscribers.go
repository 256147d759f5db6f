package side

import (
	"context"

	"verif/gen/rt2"
	"verif/gen/rt3"
)

func subscriber(ver int, role string, d Dispatch) any {
	switch {
	case ver == 2 && role == "App":
		return app2{d}
	case ver == 2:
		return user2{d}
	case role == "App":
		return app3{d}
	default:
		return user3{d}
	}
}

type app3 struct{ d Dispatch }

func (s app3) AskOperationReceived(ctx context.Context, m rt3.AskMessage) error {
	return call(s.d, "AskOperationReceived", ctx, m)
}

func (s app3) AskDynOperationReceived(ctx context.Context, m rt3.AskDynMessage) error {
	return call(s.d, "AskDynOperationReceived", ctx, m)
}

func (s app3) AskDynReqOperationReceived(ctx context.Context, m rt3.AskDynReqMessage) error {
	return call(s.d, "AskDynReqOperationReceived", ctx, m)
}

func (s app3) AskMultiOperationReceived(ctx context.Context, m rt3.AskMessage) error {
	return call(s.d, "AskMultiOperationReceived", ctx, m)
}

func (s app3) AskPayOperationReceived(ctx context.Context, m rt3.AskPayMessage) error {
	return call(s.d, "AskPayOperationReceived", ctx, m)
}

func (s app3) AskPlainOperationReceived(ctx context.Context, m rt3.NoteMessage) error {
	return call(s.d, "AskPlainOperationReceived", ctx, m)
}

func (s app3) AskReqOperationReceived(ctx context.Context, m rt3.AskReqMessage) error {
	return call(s.d, "AskReqOperationReceived", ctx, m)
}

func (s app3) AskRoomOperationReceived(ctx context.Context, m rt3.AskMessage) error {
	return call(s.d, "AskRoomOperationReceived", ctx, m)
}

func (s app3) CorrOperationReceived(ctx context.Context, m rt3.CorrMessage) error {
	return call(s.d, "CorrOperationReceived", ctx, m)
}

func (s app3) MemoOperationReceived(ctx context.Context, m rt3.NoteMessage) error {
	return call(s.d, "MemoOperationReceived", ctx, m)
}

func (s app3) NoteOperationReceived(ctx context.Context, m rt3.NoteMessage) error {
	return call(s.d, "NoteOperationReceived", ctx, m)
}

func (s app3) RoomOperationReceived(ctx context.Context, m rt3.NoteMessage) error {
	return call(s.d, "RoomOperationReceived", ctx, m)
}

var _ rt3.AppSubscriber = app3{}

type user3 struct{ d Dispatch }

func (s user3) EmitOperationReceived(ctx context.Context, m rt3.CorrMessage) error {
	return call(s.d, "EmitOperationReceived", ctx, m)
}

func (s user3) PollOperationReceived(ctx context.Context, m rt3.AskMessage) error {
	return call(s.d, "PollOperationReceived", ctx, m)
}

func (s user3) WingOperationReceived(ctx context.Context, m rt3.CorrMessage) error {
	return call(s.d, "WingOperationReceived", ctx, m)
}

var _ rt3.UserSubscriber = user3{}

type app2 struct{ d Dispatch }

func (s app2) AskOp(ctx context.Context, m rt2.AskMessage) error {
	return call(s.d, "AskOp", ctx, m)
}

func (s app2) CorrOp(ctx context.Context, m rt2.CorrMessage) error {
	return call(s.d, "CorrOp", ctx, m)
}

func (s app2) Rt2Memo(ctx context.Context, m rt2.NoteMessage) error {
	return call(s.d, "Rt2Memo", ctx, m)
}

func (s app2) NoteOp(ctx context.Context, m rt2.NoteMessage) error {
	return call(s.d, "NoteOp", ctx, m)
}

func (s app2) RoomOp(ctx context.Context, m rt2.NoteMessage) error {
	return call(s.d, "RoomOp", ctx, m)
}

var _ rt2.AppSubscriber = app2{}

type user2 struct{ d Dispatch }

func (s user2) AnswerOp(ctx context.Context, m rt2.AnswerMessage) error {
	return call(s.d, "AnswerOp", ctx, m)
}

func (s user2) AnswerPayOp(ctx context.Context, m rt2.AnswerPayMessage) error {
	return call(s.d, "AnswerPayOp", ctx, m)
}

func (s user2) AnswerReqOp(ctx context.Context, m rt2.AnswerReqMessage) error {
	return call(s.d, "AnswerReqOp", ctx, m)
}

func (s user2) AnswerRoomOp(ctx context.Context, m rt2.AnswerMessage) error {
	return call(s.d, "AnswerRoomOp", ctx, m)
}

func (s user2) EmitOp(ctx context.Context, m rt2.EmitMessage) error {
	return call(s.d, "EmitOp", ctx, m)
}

func (s user2) WingOp(ctx context.Context, m rt2.CorrMessage) error {
	return call(s.d, "WingOp", ctx, m)
}

var _ rt2.UserSubscriber = user2{}
