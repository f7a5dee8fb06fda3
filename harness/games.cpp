// The games among the samples: boards, engines and what they learn.  Unit 0 is tic-tac-toe, unit 1 connect-four.
#include "pbt.h"
#include "sim.h"
#include "ascii.h"
#include "endpoint.h"
#include "http.h"
#include "json.h"
#include "log.h"
#include "vmem.h"
#include <algorithm>
#include <map>

#ifndef PART
#define PART 0
#endif

// Both samples use the same namespace; each gets one of its own here.
#if PART == 0
#define SAMPLES tictactoe_samples
#else
#define SAMPLES connect4_samples
#endif
namespace abc { namespace category { namespace abc {
	constexpr category_t SAMPLES = samples;
}}}
#define samples SAMPLES
#if PART == 0
#include "../samples/tictactoe/game.h"
#else
#include "../samples/connect4/game.h"
#endif
#undef samples

namespace game = abc::SAMPLES;
game::vmem_bundle* game::player_agent::_vmem = nullptr;

using pbt::Src;
using pbt::fmt;

namespace {

	constexpr int R = game::row_count;
	constexpr int C = game::col_count;
	constexpr int CELLS = R * C;
	constexpr bool DROPS = PART == 1;		// a piece falls to the lowest free row
	constexpr int LINE = PART == 0 ? 3 : 4;
	using Move = game::move;
	using Scores = game::scores;

	constexpr int OPEN = -1;

	// The reference board.
	struct Model {
		int cell[R][C];			// 0 free, 1 X, 2 O
		std::vector<Move> moves;
		int turn = 1;
		int winner = 0;
		bool over = false;
		Model() {
			memset(cell, 0, sizeof cell);
		}
		int height(int c) const {
			int h = 0;
			while (h < R && cell[h][c] != 0) {
				h++;
			}
			return h;
		}
		bool legal(const Move& m) const {
			return !over && m.row >= 0 && m.row < R && m.col >= 0 && m.col < C && cell[m.row][m.col] == 0 && (!DROPS || height((int)m.col) == m.row);
		}
		std::vector<Move> all_legal() const {
			std::vector<Move> v;
			for (int r = 0; r < R; r++) {
				for (int c = 0; c < C; c++) {
					Move m{ r, c };
					if (legal(m)) {
						v.push_back(m);
					}
				}
			}
			return v;
		}
		bool wins(int who) const {
			static const int dr[] = { 0, 1, 1, 1 }, dc[] = { 1, 0, 1, -1 };
			for (int r = 0; r < R; r++) {
				for (int c = 0; c < C; c++) {
					for (int d = 0; d < 4; d++) {
						int er = r + dr[d] * (LINE - 1), ec = c + dc[d] * (LINE - 1);
						if (er < 0 || er >= R || ec < 0 || ec >= C) {
							continue;
						}
						int n = 0;
						while (n < LINE && cell[r + dr[d] * n][c + dc[d] * n] == who) {
							n++;
						}
						if (n == LINE) {
							return true;
						}
					}
				}
			}
			return false;
		}
		void play(const Move& m) {
			cell[m.row][m.col] = turn;
			moves.push_back(m);
			if (wins(turn)) {
				over = true;
				winner = turn;
			}
			else if ((int)moves.size() == CELLS) {
				over = true;
			}
			else {
				turn = 3 - turn;
			}
		}
		// Whether the player whose turn it is can win with this move.
		bool can_win() const {
			for (const Move& m : all_legal()) {
				Model n = *this;
				n.play(m);
				if (n.winner != 0) {
					return true;
				}
			}
			return false;
		}
		// The outcome for the player whose turn it is: 1 win, 0 draw, -1 loss.
		int value() const {
			if (over) {
				return winner == 0 ? 0 : winner == turn ? 1 : -1;
			}
			int best = -2;
			for (const Move& m : all_legal()) {
				best = std::max(best, value_of(m));
				if (best == 1) {
					break;
				}
			}
			return best;
		}
		int value_of(const Move& m) const {
			Model n = *this;
			n.play(m);
			return n.over ? (n.winner == turn ? 1 : 0) : -n.value();
		}
	};

	game::player_id_t id_of(int who) {
		return who == 1 ? game::player_id::x : who == 2 ? game::player_id::o : game::player_id::none;
	}

	std::string text(const Move& m) {
		return fmt("(%d, %d)", (int)m.row, (int)m.col);
	}

	void compare(const game::board& b, const Model& m, const char* when) {
		CHECK(b.is_game_over() == m.over, "%s: game over is %d after %zu moves, expected %d", when, (int)b.is_game_over(), m.moves.size(), (int)m.over);
		CHECK(b.winner() == id_of(m.winner), "%s: the winner is %u, expected %u", when, (unsigned)b.winner(), (unsigned)id_of(m.winner));
		CHECK((std::size_t)b.move_count() == m.moves.size(), "%s: %u moves, expected %zu", when, (unsigned)b.move_count(), m.moves.size());
		if (!m.over) {
			CHECK(b.current_player_id() == id_of(m.turn), "%s: it's the turn of %u, expected %u", when, (unsigned)b.current_player_id(), (unsigned)id_of(m.turn));
		}
		for (int r = 0; r < R; r++) {
			for (int c = 0; c < C; c++) {
				Move mv{ r, c };
				CHECK(b.get_move(mv) == id_of(m.cell[r][c]), "%s: cell (%d, %d) is of %u, expected %u", when, r, c, (unsigned)b.get_move(mv), (unsigned)id_of(m.cell[r][c]));
				for (int who = 1; who <= 2; who++) {
					CHECK(b.has_move(id_of(who), mv) == (m.cell[r][c] == who), "%s: has_move(%d) of (%d, %d)", when, who, r, c);
				}
			}
		}
#if PART == 1
		for (int c = 0; c < C; c++) {
			CHECK(b.col_size(c) == m.height(c), "%s: column %d has %d, expected %d", when, c, (int)b.col_size(c), m.height(c));
		}
#endif
	}

	Move any_move(Src& src, const Model& m) {
		if (src.draw(4) == 0) {
			static const int odd[] = { -1, R, C, 1000, -1000, INT32_MAX, INT32_MIN };
			Move v{ (int)src.draw(R), (int)src.draw(C) };
			switch (src.draw(3)) {
				case 0: v.row = odd[src.draw(7)]; break;
				case 1: v.col = odd[src.draw(7)]; break;
				default: break;
			}
			return v;
		}
		std::vector<Move> v = m.all_legal();
		if (v.empty()) {
			return Move{ (int)src.draw(R), (int)src.draw(C) };
		}
		return v[src.draw(v.size())];
	}

	void board_case(Src& src) {
		game::board b;
#if PART == 1
		b.reset(nullptr);
#endif
		Model m;
		std::map<std::uint64_t, std::string> seen;
		std::vector<std::pair<Model, std::uint64_t>> stack;
		unsigned undone = 0, refused = 0;
		std::size_t steps = src.len(90);
		for (std::size_t i = 0; i < steps; i++) {
			std::uint64_t k = src.draw(10);
			if (k == 0 && !stack.empty()) {
				Move last = m.moves.back();
				src.note("undo " + text(last));
				CHECK(b.undo_move(last), "undo of the last move %s is refused", text(last).c_str());
				m = stack.back().first;
				CHECK((std::uint64_t)b.state() == stack.back().second, "undo has not restored the state of the board");
				stack.pop_back();
				undone++;
			}
			else if (k == 1) {
				Move bad{ (int)src.draw(2) ? -1 : R, (int)src.draw(C) };
				src.note("undo " + text(bad));
				CHECK(!b.undo_move(bad), "undo of the invalid move %s is accepted", text(bad).c_str());
			}
			else if (k == 2 && src.draw(3) == 0) {
				src.note("reset");
#if PART == 1
				b.reset(nullptr);
#else
				b.reset();
#endif
				m = Model();
				stack.clear();
			}
			else {
				Move v = any_move(src, m);
				bool legal = m.legal(v);
				src.note((legal ? "move " : "illegal move ") + text(v));
				std::uint64_t before = (std::uint64_t)b.state();
				bool r = b.accept_move(v);
				CHECK(r == legal, "the move %s by %s is %s", text(v).c_str(), m.turn == 1 ? "X" : "O", r ? "accepted" : "refused");
				if (legal) {
					stack.push_back({ m, before });
					m.play(v);
				}
				else {
					refused++;
					CHECK((std::uint64_t)b.state() == before, "a refused move changes the board");
				}
			}
			compare(b, m, "board");
			// Different positions have different states, and the same position has the same one.
			std::string pos((const char*)m.cell, sizeof m.cell);
			auto it = seen.emplace((std::uint64_t)b.state(), pos).first;
			CHECK(it->second == pos, "two positions have the state %llx", (unsigned long long)b.state());
		}
		for (auto& a : seen) {
			for (auto& c : seen) {
				CHECK(a.first == c.first || a.second != c.second, "a position has two states");
			}
		}
		if (m.over) {
			src.label(m.winner ? "won" : "draw");
		}
		if (m.moves.size() >= 5 && (undone > 0 || refused > 0 || m.over)) {
			src.nontrivial();
		}
	}

	// ---------------------------------------------------------------- engines

	game::score_t& score_of(Scores& s, const Move& m) {
#if PART == 0
		return s[m.row][m.col];
#else
		return s[m.col];
#endif
	}

	struct Bundle {
		std::string path;
		std::unique_ptr<game::vmem_bundle> b;
		Bundle(Src& src) {
			path = pbt::case_dir(src) + "/kb.vmem";
			open();
		}
		void open() {
			b.reset(new game::vmem_bundle(path.c_str(), nullptr));
			game::player_agent::_vmem = b.get();
		}
		void close() {
			b.reset();
			game::player_agent::_vmem = nullptr;
		}
		~Bundle() {
			close();
		}
		std::map<std::uint64_t, std::string> all() {
			std::map<std::uint64_t, std::string> r;
			for (auto it = b->state_scores_map.cbegin(); it != b->state_scores_map.cend(); it++) {
				std::string s((const char*)&it->value, sizeof(Scores));
				CHECK(r.emplace((std::uint64_t)it->key, s).second, "the knowledge has a position twice");
			}
			return r;
		}
	};

	std::uint64_t state_of(const Model& m) {
		game::board b;
#if PART == 1
		b.reset(nullptr);
#endif
		for (const Move& v : m.moves) {
			CHECK(b.accept_move(v), "the legal move %s is refused", text(v).c_str());
		}
		return (std::uint64_t)b.state();
	}

	// Knowledge about a position, of every kind that learning can lead to.
	void know(Src& src, Bundle& kb, const Model& m) {
		std::uint64_t state = state_of(m);
		if (kb.b->state_scores_map.find((game::board_state_t)state).can_deref()) {
			return;
		}
		game::vmem_map::value_type item;
		item.key = (game::board_state_t)state;
		memset(&item.value, -1, sizeof item.value);
		std::uint64_t kind = src.draw(6);
		for (const Move& v : m.all_legal()) {
			int s;
			switch (kind) {
				case 0: s = game::score::min; break;
				case 1: s = src.draw(4) ? game::score::min : game::score::none; break;
				case 2: s = src.draw(3) ? game::score::max : game::score::min; break;
				case 3: s = game::score::min + (int)src.draw(game::score::max - game::score::min); break;
				case 4: s = game::score::none; break;
				default: s = src.draw(4) == 0 ? game::score::none : game::score::min + (int)src.draw(game::score::max - game::score::min + 1); break;
			}
			score_of(item.value, v) = (game::score_t)s;
		}
		src.label(fmt("knowledge %d", (int)kind).c_str());
		kb.b->state_scores_map.insert(item);
	}

	// The positions in which it was this player's turn, and what it played.
	std::vector<std::pair<std::uint64_t, Move>> own_moves(const Model& m, int who) {
		std::vector<std::pair<std::uint64_t, Move>> own;
		Model n;
		for (const Move& v : m.moves) {
			if (n.turn == who) {
				own.push_back({ state_of(n), v });
			}
			n.play(v);
		}
		return own;
	}

	// What this player must have learned from the game.
	void check_learned(const Model& m, int who, std::map<std::uint64_t, std::string> before, std::map<std::uint64_t, std::string> after) {
		for (auto& o : own_moves(m, who)) {
			CHECK(after.count(o.first), "nothing is known about a position of the game");
			Scores was, is;
			memset(&was, -1, sizeof was);
			if (before.count(o.first)) {
				memcpy(&was, before[o.first].data(), sizeof was);
			}
			memcpy(&is, after[o.first].data(), sizeof is);
			int from = score_of(was, o.second), to = score_of(is, o.second);
			if (from == game::score::none) {
				from = game::score::mid;
			}
			CHECK(to >= game::score::min && to <= game::score::max, "the score of a move is %d", to);
			if (m.winner == who) {
				CHECK(to == std::min<int>(game::score::max, from + game::score::win), "a winning move had %d, and has %d", from, to);
			}
			else if (m.winner == 0) {
				CHECK(to > from || to == game::score::max, "a move of a drawn game had %d, and has %d", from, to);
			}
			else if (m.moves.size() <= 18) {
				CHECK(to < from || to == game::score::min, "a move of a lost game had %d, and has %d", from, to);
			}
			// Other moves in this position.
			score_of(was, o.second) = (game::score_t)to;
			CHECK(memcmp(&was, &is, sizeof was) == 0, "learning has changed the score of another move");
			before.erase(o.first);
			after.erase(o.first);
		}
		CHECK(before == after, "learning has changed what's known about positions that were not the learner's turn");
	}

	// Follows the moves of a game that the model doesn't know yet.
	void follow(const game::game& g, Model& m, Bundle* kb, int fast, std::map<std::uint64_t, std::string>& before) {
		while (m.moves.size() < (std::size_t)g.board().move_count()) {
			Move v = g.moves()[m.moves.size()];
			CHECK(m.legal(v), "the game has accepted the illegal move %s", text(v).c_str());
			if (kb != nullptr && m.turn == fast) {
				auto it = before.find(state_of(m));
				if (it != before.end()) {
					Scores s;
					memcpy(&s, it->second.data(), sizeof s);
					bool max = false;
					for (const Move& l : m.all_legal()) {
						max = max || score_of(s, l) == game::score::max;
					}
					CHECK(!max || score_of(s, v) == game::score::max, "the fast engine plays %s although it knows a best move", text(v).c_str());
				}
			}
			m.play(v);
		}
		compare(g.board(), m, "game");
	}

	void wait_idle(sim::World& w) {
		while (!w.all_done()) {
			sim::sleep_ns(sim::MS);
		}
	}

	const char* const TYPES[] = { "none", "external", "slow", "fast" };

	void game_case(Src& src) {
		Bundle kb(src);
		std::srand((unsigned)src.draw(1u << 31));
		int type[3] = { 0, game::player_type::external, game::player_type::external };
		int engine = 1 + (int)src.draw(2);
		std::uint64_t k = src.draw(12);
		bool slow_ok = PART == 0;
		if (k < 7) {
			type[engine] = game::player_type::fast_engine;
			if (k == 0) {
				type[3 - engine] = game::player_type::fast_engine;
			}
		}
		else if (slow_ok && k < 11) {
			type[engine] = game::player_type::slow_engine;
			if (k == 7) {
				type[3 - engine] = game::player_type::fast_engine;
			}
			if (k == 8 && src.draw(8) == 0) {
				type[3 - engine] = game::player_type::slow_engine;
			}
		}
		src.note(fmt("X is %s, O is %s", TYPES[type[1]], TYPES[type[2]]));
		src.label(fmt("%s-%s", TYPES[type[1]], TYPES[type[2]]).c_str());
		int fast = type[1] == game::player_type::fast_engine ? 1 : type[2] == game::player_type::fast_engine ? 2 : 0;
		bool learns = (type[1] == game::player_type::fast_engine && type[2] == game::player_type::slow_engine) || (type[2] == game::player_type::fast_engine && type[1] == game::player_type::slow_engine);
		unsigned rounds = 1 + (unsigned)src.draw(2);
		bool through = false;
		for (unsigned round = 0; round < rounds; round++) {
			sim::World w(src);
			w.preempt = src.draw(2) ? 0 : 3;
			std::unique_ptr<game::game> g(new game::game());
			Model m;
			if (fast != 0 && src.draw(2)) {
				know(src, kb, m);
			}
			std::map<std::uint64_t, std::string> before = kb.all();
			g->reset((game::player_type_t)type[1], (game::player_type_t)type[2], nullptr);
			g->start();
			for (;;) {
				wait_idle(w);
				follow(*g, m, learns ? nullptr : &kb, fast, before);
				if (m.over) {
					break;
				}
				CHECK(type[m.turn] == game::player_type::external, "the %s engine, which plays %s, doesn't answer after %zu moves", TYPES[type[m.turn]], m.turn == 1 ? "X" : "O", m.moves.size());
				// Moves that must be refused.
				for (std::uint64_t n = src.len(2); n; n--) {
					int who = src.draw(3) == 0 ? 3 - m.turn : m.turn;
					Move v = any_move(src, m);
					if (who == m.turn && m.legal(v)) {
						continue;
					}
					src.note(fmt("%s plays ", who == 1 ? "X" : "O") + text(v) + ", in vain");
					CHECK(!g->accept_move(id_of(who), v), "the move %s of the player %d is accepted", text(v).c_str(), who);
					wait_idle(w);
					compare(g->board(), m, "after a refused move");
				}
				std::vector<Move> l = m.all_legal();
				Move v = l[src.draw(l.size())];
				Model next = m;
				next.play(v);
				if (fast == next.turn && !next.over && src.draw(3)) {
					know(src, kb, next);
				}
				before = kb.all();
				src.note(fmt("%s plays ", m.turn == 1 ? "X" : "O") + text(v));
				CHECK(g->accept_move(id_of(m.turn), v), "the legal move %s is refused", text(v).c_str());
			}
			src.note(fmt("%s after %zu moves", m.winner == 0 ? "draw" : m.winner == 1 ? "X has won" : "O has won", m.moves.size()));
			for (int who = 1; who <= 2; who++) {
				if (type[who] == game::player_type::slow_engine && slow_ok) {
					CHECK(m.winner != 3 - who, "the slow engine has lost a game of tic-tac-toe");
				}
			}
			// No more moves, and no more to learn.
			std::map<std::uint64_t, std::string> learned = kb.all();
			CHECK(!g->accept_move(id_of(1), any_move(src, m)) && !g->accept_move(id_of(2), any_move(src, m)), "a move is accepted after the end");
			wait_idle(w);
			compare(g->board(), m, "after the end");
			CHECK(learned == kb.all(), "a move refused after the end has changed what the engine knows");
			if (learns) {
				check_learned(m, fast, before, learned);
			}
			else {
				for (auto& e : learned) {
					auto it = before.find(e.first);
					CHECK(it != before.end() ? it->second == e.second : e.second == std::string(sizeof(Scores), (char)-1), "the fast engine has learned from a game against %s", fast != 0 ? TYPES[type[3 - fast]] : "nobody");
				}
			}
			through = through || m.moves.size() >= 5;
		}
		// Knowledge is never outside of the bounds.
		for (auto& e : kb.all()) {
			for (char c : e.second) {
				int s = (signed char)c;
				CHECK(s == game::score::none || (s >= game::score::min && s <= game::score::max), "the knowledge has a score of %d", s);
			}
		}
		if (through && (fast != 0 || type[1] == game::player_type::slow_engine || type[2] == game::player_type::slow_engine)) {
			src.nontrivial();
		}
	}

#if PART == 1
	// The slow engine of connect-four, when it can see to the end of the game, and when it can't.
	void engine_case(Src& src, bool endgame) {
		Bundle kb(src);
		sim::World w(src);
		w.preempt = 0;
		game::game g;
		g.reset(game::player_type::external, game::player_type::external, nullptr);
		Model m;
		std::size_t target = endgame ? CELLS - 1 - src.draw(8) : 4 + src.draw(8);
		// Random games seldom get that far, so moves that end the game are avoided.
		while (m.moves.size() < target) {
			std::vector<Move> l = m.all_legal(), calm;
			for (const Move& v : l) {
				Model n = m;
				n.play(v);
				if (!n.over) {
					calm.push_back(v);
				}
			}
			if (calm.empty()) {
				wait_idle(w);
				throw pbt::Discard{};
			}
			Move v = calm[src.draw(calm.size())];
			CHECK(g.accept_move(id_of(m.turn), v), "the legal move %s is refused", text(v).c_str());
			m.play(v);
		}
		src.note(fmt("%zu moves played", m.moves.size()));
		std::unique_ptr<game::player_agent> a(new game::player_agent());
		a->reset(&g, id_of(m.turn), game::player_type::slow_engine, nullptr);
		int best = endgame ? m.value() : 0;
		a->make_move_async();
		wait_idle(w);
		CHECK((std::size_t)g.board().move_count() == m.moves.size() + 1, "the slow engine doesn't answer after %zu moves", m.moves.size());
		Move v = g.moves()[m.moves.size()];
		CHECK(m.legal(v), "the slow engine plays %s", text(v).c_str());
		if (endgame) {
			int got = m.value_of(v);
			CHECK(got == best, "the slow engine plays %s for %d, the best move is worth %d", text(v).c_str(), got, best);
			src.label(fmt("endgame %d", best).c_str());
		}
		else {
			// It takes a win, and doesn't leave one to the opponent if it can be helped.
			Model played = m;
			played.play(v);
			bool win = false, safe = false;
			for (const Move& l : m.all_legal()) {
				Model n = m;
				n.play(l);
				win = win || n.over;
				safe = safe || !n.can_win();
			}
			CHECK(!win || played.winner == m.turn, "the slow engine plays %s although it could win", text(v).c_str());
			CHECK(win || !safe || !played.can_win(), "the slow engine plays %s and lets the opponent win, which it could prevent", text(v).c_str());
			src.label(win ? "could win" : !safe ? "could only lose" : "could be safe");
		}
		m.play(v);
		compare(g.board(), m, "after the engine's move");
		src.nontrivial();
	}

	// A whole game of the fast engine against the slow one.  The fast one "knows" moves that lose soon, because the slow one takes its time later on.
	void duel_case(Src& src) {
		Bundle kb(src);
		int fast = 1 + (int)src.draw(2);
		Model m;
		{
			sim::World w(src);
			w.preempt = 0;
			game::game g;
			g.reset(game::player_type::external, game::player_type::external, nullptr);
			std::unique_ptr<game::player_agent> a(new game::player_agent());
			a->reset(&g, id_of(3 - fast), game::player_type::slow_engine, nullptr);
			int col = (int)src.draw(C);
			while (!m.over && m.moves.size() < 11) {
				if (m.turn == fast) {
					while (m.height(col) == R) {
						col = (col + 1) % C;
					}
					if (src.draw(8) == 0) {
						col = (int)src.draw(C);
					}
					Move v{ m.height(col), col };
					if (v.row == R) {
						continue;
					}
					game::vmem_map::value_type item;
					item.key = (game::board_state_t)state_of(m);
					memset(&item.value, -1, sizeof item.value);
					score_of(item.value, v) = game::score::max;
					kb.b->state_scores_map.insert(item);
					CHECK(g.accept_move(id_of(m.turn), v), "the legal move %s is refused", text(v).c_str());
					m.play(v);
				}
				else {
					a->make_move_async();
					wait_idle(w);
					CHECK((std::size_t)g.board().move_count() == m.moves.size() + 1, "the slow engine doesn't answer after %zu moves", m.moves.size());
					CHECK(m.legal(g.moves()[m.moves.size()]), "the slow engine plays an illegal move");
					m.play(g.moves()[m.moves.size()]);
				}
			}
			wait_idle(w);
		}
		if (!m.over) {
			throw pbt::Discard{};
		}
		sim::World w(src);
		w.preempt = src.draw(2) ? 0 : 3;
		std::map<std::uint64_t, std::string> before = kb.all();
		game::game g;
		g.reset(fast == 1 ? game::player_type::fast_engine : game::player_type::slow_engine, fast == 1 ? game::player_type::slow_engine : game::player_type::fast_engine, nullptr);
		g.start();
		wait_idle(w);
		src.note(fmt("the fast engine is %d, %zu moves", fast, m.moves.size()));
		Model n;
		follow(g, n, nullptr, 0, before);
		CHECK(n.over, "an engine doesn't answer after %zu moves", n.moves.size());
		check_learned(n, fast, before, kb.all());
		src.label("duel");
		src.nontrivial();
	}

	// Its opening.
	void opening_case(Src& src) {
		Bundle kb(src);
		sim::World w(src);
		w.preempt = 0;
		game::game g;
		int engine = 1 + (int)src.draw(2);
		int type[3] = { 0, game::player_type::external, game::player_type::external };
		type[engine] = game::player_type::slow_engine;
		g.reset((game::player_type_t)type[1], (game::player_type_t)type[2], nullptr);
		g.start();
		Model m;
		std::map<std::uint64_t, std::string> none;
		while (m.moves.size() < 4) {
			wait_idle(w);
			follow(g, m, nullptr, 0, none);
			if (m.moves.size() >= 4) {
				break;
			}
			CHECK(type[m.turn] == game::player_type::external, "the slow engine doesn't answer after %zu moves", m.moves.size());
			if (m.moves.size() == 3) {
				break;
			}
			std::vector<Move> l = m.all_legal();
			Move v = l[src.draw(l.size())];
			src.note("play " + text(v));
			CHECK(g.accept_move(id_of(m.turn), v), "the legal move %s is refused", text(v).c_str());
		}
		wait_idle(w);
	}
#endif

	// What the fast engine learns from a game.
	void learn_case(Src& src) {
		Bundle kb(src);
		unsigned games = 1 + (unsigned)src.draw(4);
		unsigned learned = 0;
		for (unsigned i = 0; i < games; i++) {
			sim::World w(src);
			w.preempt = 0;
			game::game g;
			g.reset(game::player_type::external, game::player_type::external, nullptr);
			Model m;
			int who = 1 + (int)src.draw(2);
			while (!m.over) {
				if (m.turn == who && src.draw(3) == 0) {
					know(src, kb, m);
				}
				std::vector<Move> l = m.all_legal();
				Move v = l[src.draw(l.size())];
				CHECK(g.accept_move(id_of(m.turn), v), "the legal move %s is refused", text(v).c_str());
				m.play(v);
			}
			wait_idle(w);
			src.note(fmt("a game of %zu moves, the learner %s", m.moves.size(), m.winner == who ? "has won" : m.winner == 0 ? "has drawn" : "has lost"));
			std::map<std::uint64_t, std::string> before = kb.all();
			std::unique_ptr<game::player_agent> a(new game::player_agent());
			a->reset(&g, id_of(who), game::player_type::fast_engine, nullptr);
			a->learn();
			if (src.draw(3) == 0) {
				src.note("reopen");
				kb.close();
				kb.open();
			}
			std::map<std::uint64_t, std::string> after = kb.all();
			learned += (unsigned)m.moves.size() / 2;
			check_learned(m, who, before, after);
		}
		if (learned >= 4) {
			src.nontrivial();
		}
	}
}

#if PART == 0
void connect4_case(Src& src);
void tictactoe_case(Src& src) {
#else
void connect4_case(Src& src) {
#endif
	std::uint64_t k = src.draw(10);
	if (k < 4) {
		src.label("board");
		board_case(src);
	}
	else if (k < 7) {
		game_case(src);
	}
	else if (k < 9) {
		src.label("learn");
		learn_case(src);
	}
	else {
#if PART == 1
		std::uint64_t e = src.draw(20);
		if (e == 0) {
			duel_case(src);
		}
		else if (e < 5) {
			opening_case(src);
		}
		else {
			engine_case(src, src.draw(5) != 0);
		}
#else
		board_case(src);
#endif
	}
}

#if PART == 0
static pbt::Reg c31("C31", 0, 0, "a game of at least 5 moves with an engine, with refused or undone moves, or to its end, or one that an engine has learned from", [](Src& src) {
	if (src.draw(2)) {
		src.note("connect-four");
		connect4_case(src);
	}
	else {
		src.note("tic-tac-toe");
		tictactoe_case(src);
	}
});
#endif
