#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=hook)))


# ---------------------------------------------------------------- model
prop('C01', 'Playing and undoing chequer moves is exact, reversible and conserves chequers',
     '''Playing a legal chequer step moves exactly one chequer of the player on action from its source to its
     destination (or off the board), sends a hit opposing blot to the opponent's bar, and touches nothing else of
     the game state. Undoing the steps in reverse order restores the original state exactly, and no sequence of plays and
     undos ever creates, destroys or transfers a chequer.''',
     ['inputs', 'histories'],
     '''every position of up to 15 chequers a side (bar, bear-off and contact included), either player on action, and
     every interleaving of legal plays and undos''',
     '''The unit tests play a handful of fixed moves on two or three fixed boards; they cannot cover every source,
     destination, hit, bar entry and bear-off for both players, nor long play/undo histories.''',
     ['bglib/model/boardeditor.py', 'bglib/model/move.py', 'bglib/model/util.py'],
     [('applying one step to the editable board', 'bglib/model/boardeditor.py make_partial_move/make'),
      ('move factory append (board + dice + move list in step)', 'bglib/model/move.py MoveFactory.append/add')],
     [('position', 'two 25-tuples, each from its owner\'s side, last entry the bar', 'bglib/model/board.py')],
     ['board position after each step', 'editable board attributes'])

prop('C02', 'A single-step suggestion is offered exactly when a legal step exists, and is one',
     '''Asked for a step from a given point, or into a given point (or off), with the dice still to be played, the library
     returns a step that is legal under the rules of backgammon, uses one of the dice available and correctly reports
     whether it hits, preferring the largest die that works. It returns a (false) refusal exactly when the rules allow no such
     step, never raises on any position, and does not change the board or the dice.''',
     ['inputs'],
     '''every position, player on action, multiset of remaining dice, and every source or destination point including bar and
     off''',
     '''Tests ask about a few dozen (position, point, dice) triples out of an astronomically large space; bar entry, blocked
     points, over-bearing-off and the outermost points need unusual positions.''',
     ['bglib/model/move.py', 'bglib/model/board.py'],
     [('step from a source', 'bglib/model/move.py MoveFactory.guess_your_single_pm_from_source'),
      ('step into a destination', 'bglib/model/move.py MoveFactory.guess_your_single_pm_from_dest'),
      ('landing / source / bear-off predicates', 'bglib/model/board.py AbstractBoard')],
     [('available dice', 'dice of the roll not yet played', 'bglib/model/move.py AvailableToPlay')],
     ['returned step or refusal'])

prop('C03', 'A multi-step suggestion is a legal chain that joins the two points asked for',
     '''Asked to bring one chequer from one point to a lower one (or off) with the remaining dice, the library returns a chain of
     individually legal steps of that single chequer from source to destination whose dice are all available, and a (false) refusal
     only if there is none. Asked to take back such a journey it returns exactly the inverse steps in the order that restores the
     earlier position; asked to make a point it returns two legal steps into it, or a refusal if there are none. No question
     changes the board, the dice or the steps played, or raises, whatever the answer.''',
     ['inputs', 'histories'],
     '''every position, dice, source/destination pair with source above destination, and every prior sequence of played
     steps for taking back''',
     '''Existing tests use about twenty hand-picked journeys; the interaction of hits on the way, blocked intermediate
     points, overshooting dice and partly played rolls is only reached by search.''',
     ['bglib/model/move.py'],
     [('recursive chain search with rewind', 'bglib/model/move.py MoveFactory.guess_your_multiple_pms'),
      ('taking back', 'bglib/model/move.py MoveFactory.guess_your_multiple_partial_undoes')],
     (), ['returned move', 'board before/after'])

prop('C04', 'The turn may be ended exactly when the rules of backgammon allow it',
     '''A player may pick up the dice exactly when the steps played so far use as many of the dice as any legal
     play of the roll could use and, when only one of two different dice can be played, use the larger one if it can be played.
     Asking whether the turn may be ended never changes the board, the steps played or the dice remaining; ending it hands the turn to the opponent
     with no dice rolled.''',
     ['inputs', 'histories'],
     '''every position, every roll, and every legal partial or complete sequence of steps played so far''',
     '''The maximal-dice rule quantifies over all alternative plays of the roll; tests pin fewer than thirty
     situations and none with a chequer on the bar that can enter.''',
     ['bglib/model/move.py', 'bglib/model/boardeditor.py'],
     [('end-of-turn predicate', 'bglib/model/move.py MoveFactory.is_leagal_to_pickup_dice'),
      ('ending the turn', 'bglib/model/boardeditor.py pickupdice')],
     (), ['legality answer', 'board after'])

prop('C05', 'Steps played and dice remaining always account for the roll',
     '''At any time the steps recorded in a turn plus the dice still available are exactly the dice rolled (a doublet counting four),
     whatever sequence of plays and undos led there; recording a step and then its inverse cancels to nothing, and copying a
     move or a dice pool yields an independent equal value. A die that is not available can never be played.''',
     ['histories', 'inputs'],
     '''every roll and every sequence of legal plays, undos, copies and merges of moves''',
     '''Bookkeeping errors show only after particular sequences (repeated identical steps, undo of an earlier step, doublets); tests use
     two or three fixed sequences.''',
     ['bglib/model/move.py'],
     [('dice pool', 'bglib/model/move.py AvailableToPlay'), ('move list with cancellation', 'bglib/model/move.py Move')],
     (), ['len/iteration of moves', 'dice pool contents'])

prop('C06', 'Boards are immutable values and swapping the two players is an exact mirror',
     '''A frozen board can never be modified; boards compare equal exactly when every field of the game state is equal;
     editing a copy never affects the board it came from, and freezing an editor reproduces exactly what was set. Swapping the players'
     perspective twice is the identity, and every rules question answered for one player gives the same answer
     for the other player on the swapped board.''',
     ['inputs', 'histories'],
     '''every combination of game-state fields, every edit sequence, and both players' points of view''',
     '''Symmetry and value semantics quantify over all states and pairs of states; the tests compare a few constants.''',
     ['bglib/model/board.py', 'bglib/model/boardeditor.py'],
     [('immutable board', 'bglib/model/board.py Board'), ('editor', 'bglib/model/boardeditor.py BoardEditor'),
      ('perspective swap', 'bglib/model/boardeditor.py flip')],
     (), ['equality', 'field values'])

prop('C07', 'Cube, resignation and turn actions: only the legal ones, scored correctly',
     '''In every state reachable by rolling, doubling, taking, dropping, offering, accepting and rejecting resignations and
     ending turns, each action is permitted to exactly the player entitled to it: no double in the Crawford game, after rolling, when the cube
     belongs to the opponent or when it is already dead for the doubler at the match score. A drop or an accepted resignation ends the game and credits the right player with
     exactly the cube value (times the resignation level), a take gives
     the taker the cube at twice its value, a take or a rejection hands the decision back, and nothing else changes.''',
     ['histories', 'inputs'],
     '''every history of actions from every starting match length, score, cube level and owner''',
     '''The tests check single transitions from a few fixed states; entitlement must hold after any history and at any
     score.''',
     ['bglib/model/board.py', 'bglib/model/boardeditor.py'],
     [('entitlement predicates', 'bglib/model/board.py is_leagal_to_*'), ('transitions', 'bglib/model/boardeditor.py double/take/drop/offer_resign/...')],
     (), ['predicates', 'score, game state, player to act'])

prop('C08', 'Point and move notation converts back and forth without loss',
     '''Every board point, bar and off location has exactly one textual name per player and converting to text and back returns
     the same location; the move names the two players give one physical point add up to 25, and its board name is the same for
     both. Texts and numbers that name no location are rejected with a value error rather than mapped to one, and a move is
     written as its steps in order, source/destination with a star for a hit.''',
     ['inputs'],
     '''every location and both players, and arbitrary text''',
     '''Tests list examples; rejection quantifies over arbitrary text.''',
     ['bglib/model/util.py', 'bglib/model/move.py'],
     [('conversions', 'bglib/model/util.py')], (), ['converted values'])

# ---------------------------------------------------------------- encodings
prop('C09', 'The 26-byte database form of a board is a faithful, unique encoding',
     '''Encoding any position yields exactly 26 bytes that decode to the same position, different positions never share an encoding, and
     a whole board stored in database form comes back equal in every field whoever is on action. The distance between two encodings is
     the squared Euclidean distance of their signed bytes, hence zero only for equal positions and symmetric.''',
     ['inputs'],
     '''every pair of positions and every game state''',
     '''A round trip must hold for each of about 10^19 positions; tests sample under ten.''',
     ['bglib/encoding/dbbyte.py'],
     [('position codec', 'bglib/encoding/dbbyte.py encode_position/decode_position'), ('board codec', 'bglib/encoding/dbbyte.py DatabaseBytesExpression')],
     (), ['encoded bytes', 'decoded board'])

prop('C10', 'GNU Backgammon position and match identifiers round-trip and follow the standard',
     '''Encoding any game state as a GNU Backgammon position id and match id and decoding it again returns the same state in every
     field, and both ids are bit-for-bit those of the published format (14 and 12 base64 characters).
     A text that is not such an id is rejected with an error, never decoded to a board with a wrong number of points or looped on forever.''',
     ['inputs'],
     '''every position with up to 15 chequers a side, every combination of match fields within their bit widths, and arbitrary id text''',
     '''Bit-packing faults appear only at particular field values and boundaries; the existing tests need a third-party package that is absent and pin
     about ten ids.''',
     ['bglib/encoding/gnubgid.py'],
     [('position bits', 'bglib/encoding/gnubgid.py twoside_encode/decode'), ('match bits', 'bglib/encoding/gnubgid.py MatchProxy')],
     (), ['ids', 'decoded board'])

prop('C11', 'Every FIBS board line decodes to exactly the game state it describes',
     '''For either colour and direction and whoever is on turn, decoding a FIBS board line yields the position, bar, dice, cube value and
     owner, score, match length and pending double that the line states, from the viewer's perspective. The helper parsers extract exactly the
     dice, name, score and moves a FIBS message contains.''',
     ['inputs'],
     '''every game state rendered as a board line in each of the four colour/direction combinations and three turn values, and every FIBS move, dice and
     score message''',
     '''Four tests decode four literal lines, all with the viewer on turn.''',
     ['bglib/encoding/FIBS.py'],
     [('board line indices and orientation', 'bglib/encoding/FIBS.py _FIBSBoardState'), ('decode', 'bglib/encoding/FIBS.py decode')],
     (), ['decoded editor fields'])

prop('C12', 'XG identifiers decode to exactly the state they describe or are rejected',
     '''Every well-formed XGID decodes to the position, cube value and owner, player on turn, dice, score, match length and Crawford flag it
     states. Any other text is rejected with one of the library's own encoding errors and never with an internal error.''',
     ['inputs'],
     '''every game state rendered as an XGID, and arbitrary or mutated text''',
     '''Tests decode a few literal ids; rejection quantifies over all malformed texts (field count, non-numbers, ranges).''',
     ['bglib/encoding/xgid.py', 'bglib/encoding/__init__.py'],
     [('decode', 'bglib/encoding/xgid.py decode')], (), ['decoded editor fields', 'raised error class'])

prop('C13', 'Bear-off indices number home positions one-to-one; databases return the record',
     '''The one-sided bear-off indexing schemes (nori's and gnubg's) give every home-board position its own index within the size of the scheme, nori's number-to-position
     conversion inverts it, and the counting formulas agree with each other and with the known totals. Reading record n of a bear-off database returns exactly the n-th
     record's bytes (or its four figures) or, beyond the end, an index error.''',
     ['inputs'],
     '''every home position of up to 15 chequers (54264 of them), every index, and database files of any length''',
     '''Bijectivity is a statement about all pairs of positions; tests check a few indices and need an absent third-party package.''',
     ['bglib/encoding/bearoff/__init__.py', 'bglib/encoding/bearoff/nori.py', 'bglib/encoding/bearoff/gnubgdb.py', 'bglib/encoding/bearoff/trice.py'],
     [('indexing', 'bglib/encoding/bearoff/*.py'), ('record reader', 'bglib/encoding/bearoff/__init__.py DBReader')],
     (), ['indices', 'record bytes'])

# ---------------------------------------------------------------- statistics
prop('C14', 'Ratings: chances are complementary, monotone and zero-sum fair',
     '''For any two ratings and match length the favourite's and underdog's winning chances lie in (0,1), sum to one, are equal for equal ratings and
     move with the rating difference and match length in the right direction. A player's expected rating change is zero: what one side gains by winning is
     proportional to the chance the other side had.''',
     ['inputs'],
     '''all ratings and match lengths in use (within floating-point precision)''',
     '''Tests check a few numbers; complementarity, monotonicity and fairness are relations over all inputs.''',
     ['bglib/stat/rating.py'],
     [('upset chance', 'bglib/stat/rating.py upset_chance'), ('rating gain', 'bglib/stat/rating.py gain_on_win')],
     (), ['returned probabilities and gains'])

prop('C15', 'Tournament handicaps are fair and the tournament simulation conserves players',
     '''For any field the handicapped prizes give each player the same expectation as an average player, and the handicapped entry fee is proportional to the chance
     of winning. In the knockout simulation every entrant is at all times either alive or dead but not both, each round takes exactly
     one life from one player of each pair (the other one being as likely to win as the ratings say), a player dies exactly on losing the last life, and enough rounds leave one survivor; the field given by the caller stays as it was.''',
     ['inputs', 'histories'],
     '''all ratings, rounds, lengths and prizes; all fields of players, lives and random outcomes over any number of rounds''',
     '''Simulation invariants are about all random histories; tests run a few unchecked rounds.''',
     ['bglib/stat/tourney.py'],
     [('handicaps', 'bglib/stat/tourney.py prize_handicap/entryfee_handicap'), ('rounds', 'bglib/stat/tourney.py Tourney.round')],
     (), ['returned amounts', 'alive and dead players'])

# ---------------------------------------------------------------- records
prop('C16', 'Match records: exactly the well-formed ones pass, and they split losslessly',
     '''A Snowie text match record whose lines come in a legal order with consecutively numbered moves is accepted and reported with the SHA-1 of its
     bytes; a record with a line out of order, misnumbered, unrecognised or beyond the size limit is rejected with a value error (a result line standing alone has no order). Splitting a record into
     games yields one self-contained valid record per game holding all of its lines in order.''',
     ['inputs'],
     '''every generated match record and every line deletion, duplication, swap, renumbering or corruption of one''',
     '''The sample-based tests shuffle recorded files once; which single-line faults are detected, and lossless splitting, are statements over all records.''',
     ['bglib/record/snowietxt.py'],
     [('line grammar and order', 'bglib/record/snowietxt.py LineValidator'), ('digest and limit', 'bglib/record/snowietxt.py Validator'), ('split', 'bglib/record/snowietxt.py chop')],
     (), ['acceptance', 'digest', 'pieces'])

# ---------------------------------------------------------------- image
prop('C17', 'The board picture tree shows exactly the game state',
     '''For every state of a game in progress the picture tree shows, for both players, exactly the chequers on each point, the bar and borne off (15 in all), the scores, match length and
     Crawford flag, and one cube with the right value in the place of its owner, or offered at twice the value on the field of the player to respond. It shows the dice rolled or
     the resignation offered on the proper side and one action text naming the player who must act, and its XML form is well formed
     whatever values the attributes have. A visitor meets every element once, parents first, with the path that leads to it.''',
     ['inputs'],
     '''every combination of position, cube, score, dice, resignation and player on turn reachable in a game''',
     '''Tests compare a few fixed boards; one misplaced count for one point, owner or action state escapes them.''',
     ['bglib/image/base.py'],
     [('filling the tree', 'bglib/image/base.py ElementTree.set'), ('serialisation', 'bglib/image/base.py ElementTree.xml')],
     (), ['element tree', 'XML text'])

prop('C18', 'Picture elements accept only what their document type allows; inheritance works',
     '''An element accepts exactly the child elements and text its type declares, and its constructor and styles exactly the attributes it declares; others are refused with an error; a value of the wrong type is refused and leaves the element
     unchanged. Reading an attribute gives the value set on the element, else the nearest ancestor's for inheritable attributes, else the declared default, else an error. The document type written out declares exactly what is accepted.''',
     ['inputs', 'histories'],
     '''every pair of element types, every attribute and value, and every tree shape and sequence of assignments''',
     '''Declared element/attribute tables are quantified over; tests try a handful of pairs.''',
     ['bglib/image/base.py'],
     [('child check', 'bglib/image/base.py BaseElement.append'), ('attribute lookup', 'bglib/image/base.py BaseElement.__getattr__/__setattr__')],
     (), ['errors raised', 'attribute values'])

prop('C19', 'Style rules select exactly the elements their pattern describes; last rule wins',
     '''A style rule applies to an element exactly when the last selector of its pattern matches the element and the preceding selectors match
     some of its ancestors in the same order, by element type, attribute value and text content. The attribute values are those set on the element itself at
     that moment. Properties of all matching rules are
     applied in file order so that later ones win, converted to the attribute's type; an unknown property is an error and lines that are not rules have no effect.''',
     ['inputs', 'programs'],
     '''every generated style sheet over every generated picture tree''',
     '''Cascade semantics are over all (rules, tree) pairs; tests use one rule at a time.''',
     ['bglib/image/css.py', 'bglib/image/base.py'],
     [('parser', 'bglib/image/css.py CSSParser'), ('matching', 'bglib/image/css.py Selector/Rule'), ('cascade', 'bglib/image/css.py Binder')],
     (), ['resulting attributes'])

prop('C20', 'Every legal game state renders at every size with every shipped theme',
     '''Drawing any legal game state with any shipped theme at any positive size succeeds, is repeatable, keeps every drawn item inside the requested size while preserving the theme's aspect
     ratio, and draws each chequer stack, die, cube, score and text of the state,
     as far as the theme has a colour or picture for it. Reusing one drawer for many boards gives the same drawings as a fresh drawer for each. With further style rules added to a theme, every item
     is drawn where, how large, how often, in which colour, picture and font, filled or flipped as the resulting attributes say.''',
     ['inputs', 'configurations', 'histories'],
     '''every legal game state, every shipped theme, every target size, and sequences of drawings on one drawer''',
     '''Tests draw one initial board per theme; stacks, cube values, resignations and odd sizes are not covered.''',
     ['bglib/image/draw.py', 'bglib/image/base.py', 'bglib/image/css.py'],
     [('drawing operations', 'bglib/image/draw.py Draw'), ('element drawing', 'bglib/image/base.py *.draw'), ('scaling', 'bglib/image/base.py Board.set_mag')],
     (), ['recorded drawing operations'])

# ---------------------------------------------------------------- documents
prop('C21', 'Any wiki text formats to well-formed XHTML without error',
     '''Formatting any text as wiki markup terminates without an exception and the result is a well-formed XHTML fragment, however the markup is
     nested, interleaved or left unterminated; elements that are empty by definition (br, img) are written as a single tag, all others as an opening and a closing tag.
     The output depends only on the text.''',
     ['inputs', 'programs'],
     '''every text over the markup alphabet, including unterminated and interleaved constructs''',
     '''Well-formedness for arbitrary input is the aim of the project's own fuzzing module, which the tests never run; they compare about sixty literal snippets.''',
     ['bglib/doc/bgwiki.py', 'bglib/doc/doctree.py', 'bglib/doc/html.py', 'bglib/doc/macro.py'],
     [('line formatter', 'bglib/doc/bgwiki.py LineFormatter'), ('tree editor', 'bglib/doc/doctree.py Editor'), ('writer', 'bglib/doc/doctree.py HtmlWriter')],
     (), ['generated HTML'])

prop('C22', 'Wiki text can never inject markup, and no plain text is lost',
     '''Characters that are special in HTML reach the output only escaped, whatever construct they occur in, so the only tags and attributes in the output are those the wiki markup defines.
     All text that is not markup appears in the output, in order and unchanged once unescaped (line breaks and blanks next to elements aside; words on different lines stay apart); text escaped with an exclamation mark or inside a
     preformatted block appears verbatim.''',
     ['inputs'],
     '''every text, with every construct around every special character''',
     '''Injection and loss are questions about arbitrary content in arbitrary constructs; tests use benign content.''',
     ['bglib/doc/bgwiki.py', 'bglib/doc/doctree.py', 'bglib/doc/html.py'],
     [('escaping', 'bglib/doc/html.py escape'), ('attribute writing', 'bglib/doc/doctree.py BgWikiElementNode.open')],
     (), ['generated HTML'])

prop('C23', 'Wiki markup produces the structure it denotes',
     '''Inline markers toggle exactly the style they denote around exactly the enclosed text; headings, links, tables, nested and styled lists, citations, definitions, quotes and paragraphs yield the
     elements with the nesting, order, class, target and text that the source denotes; text that denotes no construct, however close it comes to one, stays plain text. Blocks
     separated by a blank line format independently of each other.''',
     ['programs', 'inputs'],
     '''every document generated from the grammar of the markup, nested to any depth''',
     '''Tests compare some sixty snippets; composition (nesting levels, style changes, several blocks) is not covered.''',
     ['bglib/doc/bgwiki.py', 'bglib/doc/doctree.py'],
     [('line patterns', 'bglib/doc/bgwiki.py LineFormatter._patterns'), ('nesting', 'bglib/doc/bgwiki.py LineFormatter._nest/_unnest')],
     (), ['generated HTML tree'])

prop('C24', 'Wiki macros expand to what their arguments say or to an error note',
     '''A macro call expands to the output its name and arguments define: line break, timestamp, position image with the requested identifier and options, the
     analysis table with every figure in the stored analysis, or a table of contents listing every heading in order at its level with working links. An unknown name or bad
     arguments produce a visible escaped error note in place and never an exception or a change to the rest of the page.''',
     ['inputs', 'programs'],
     '''every macro name and argument text, every stored analysis and every heading structure''',
     '''Tests use fixed arguments and one stored analysis; argument errors and heading combinations are open-ended.''',
     ['bglib/doc/macro.py', 'bglib/doc/bgwiki.py'],
     [('dispatch', 'bglib/doc/macro.py dispatch'), ('macros', 'bglib/doc/macro.py')],
     (), ['generated HTML'])

prop('C25', 'HTML helpers escape reversibly and report equal documents as equal',
     '''Escaping leaves no raw angle bracket or ampersand and unescaping returns the original text; the validator accepts exactly well-formed fragments (those using html or body tags themselves aside).
     The document comparison reports no difference for documents that differ only in line breaks between tags or attribute order, and a
     difference whenever a tag, attribute value or text differs (line breaks and blanks around a text aside); of several differences it reports each.''',
     ['inputs'],
     '''every text and every pair of generated documents''',
     '''Reversibility and discrimination are over all texts and pairs.''',
     ['bglib/doc/html.py'],
     [('escape', 'bglib/doc/html.py escape'), ('compare', 'bglib/doc/html.py cmp_tuple'), ('validate', 'bglib/doc/html.py validate')],
     (), ['returned text, differences'])

prop('C26', 'Document tree editing keeps a valid tree and writes it in order',
     '''After any sequence of entering, leaving, appending and removing, every node has one parent that lists it, no element sits in a parent that does not accept it, the cursor is in the tree, and leaving a
     kind of element returns to the parent of its innermost open instance (or reopens the element that entering it had closed, or does nothing if none is open). Writing the tree opens and closes every node once, properly nested, with
     its text in insertion order.''',
     ['histories'],
     '''every sequence of editing operations over every element kind''',
     '''Tests build a few small trees; acceptance and nesting are over all operation sequences.''',
     ['bglib/doc/doctree.py'],
     [('editor', 'bglib/doc/doctree.py Editor'), ('visitor', 'bglib/doc/doctree.py Node.accept')],
     (), ['tree', 'written HTML'])

prop('C27', 'Embedded and alternative formatters keep the text and never break the page',
     '''A preformatted or reStructuredText block in a wiki page is formatted exactly as that formatter alone would format the enclosed lines, and the page before and after the block is formatted as if each stood
     alone. Feeding a formatter its text in several pieces, cut at line ends, gives the same result as feeding it whole. The reStructuredText formatter's options for titles, header levels and encodings act as documented.''',
     ['inputs'],
     '''every block content and surrounding page, every way of cutting the text''',
     '''Tests embed one or two fixed blocks.''',
     ['bglib/doc/bgwiki.py', 'bglib/doc/rst.py', 'bglib/doc/mkdn.py'],
     [('wrapping element', 'bglib/doc/bgwiki.py WrappingFormatterElement'), ('formatters', 'bglib/doc/rst.py bglib/doc/mkdn.py')],
     (), ['generated HTML'])

# ---------------------------------------------------------------- protocol
prop('C28', 'Every FIBS server line is classified as the kind of message it is',
     '''Every line is given exactly one message kind: one whose published pattern it fits in the current phase of the session (the special
     kind where a more general one fits too), or the phase's default when it fits none. The same line in the same phase is classified the same whatever lines came before.''',
     ['inputs', 'histories'],
     '''every line built from the published message formats or arbitrary text, after every history of lines''',
     '''One recorded session of 45 lines is replayed once, covering a tenth of the message kinds and one order.''',
     ['bglib/protocol/fibs.py'],
     [('patterns', 'bglib/protocol/fibs.py RunState/LoginState/MOTDState'), ('most-recent-first matching', 'bglib/protocol/fibs.py State')],
     [('recently matched kinds', 'reordered on every match', 'bglib/protocol/fibs.py State.last_match')], ['returned kind'])

prop('C29', 'The FIBS session moves through its phases only on the proper messages',
     '''A session starts in the login phase, enters the message-of-the-day phase exactly on its begin marker, the running phase exactly on its end marker, and returns to a fresh login phase exactly on
     the goodbye message; no other line changes the phase. Independent sessions do not influence each other.''',
     ['histories'],
     '''every sequence of lines and interleaving of several sessions''',
     '''Phase changes depend on the history; the only test replays one login.''',
     ['bglib/protocol/fibs.py'],
     [('phase change', 'bglib/protocol/fibs.py CookieMonster/next_state')], (), ['classification after each line'])

prop('C30', 'Each subscriber receives every classified line once, in order, while registered',
     '''Every line the server sends, however it is cut into network packets, is delivered in order exactly once, without its line end, to the handler named after its kind of every
     subscriber registered at that time and to nobody else. A login prompt at the start of a line counts as a line. Loss of the connection is reported once to the subscribers, and what the client sends arrives as complete lines. Sessions of one process neither affect nor hold up each other.''',
     ['histories', 'schedules', 'fault_sequences'],
     '''every line sequence, packetisation, set of subscribers, registration history and point of disconnection''',
     '''The session tests cannot run here and only look at one flag for one subscriber after a sleep.''',
     ['bglib/protocol/session.py', 'bglib/protocol/fibs.py'],
     [('listener', 'bglib/protocol/session.py Session._listener'), ('dispatch', 'bglib/protocol/session.py Session._dispatch'), ('line writing', 'bglib/protocol/session.py Transport.send_line')],
     (), ['handler calls', 'bytes on the wire'])

prop('C31', 'A game can be stored and taken up again at any moment and goes on as before',
     '''At any moment of a game, in the middle of a turn included, the game can be stored (frozen, copied, as GNU Backgammon identifiers, in its database form) and taken up again with the steps played and dice left.
     It then goes on exactly as the original would have: same board, same steps to undo, same dice, same turn-end answer, same entitlements of both players, same picture. Playing on in one of the two never affects the other or a frozen board.''',
     ['histories', 'all_inputs'],
     '''every position, match situation and history of rolls, plays, undos, cube, resignation and turn actions, allowed and refused, with any storing, restoring and switching between them''',
     '''The tests look at one class at a time on a few states; losing something on the way through several of them needs a history.''',
     ['bglib/model', 'bglib/encoding/gnubgid.py', 'bglib/encoding/dbbyte.py', 'bglib/image/base.py'],
     [('editor and frozen board', 'bglib/model/boardeditor.py BoardEditor, bglib/model/board.py Board'), ('move factory', 'bglib/model/move.py MoveFactory'), ('identifiers', 'bglib/encoding/gnubgid.py encode, decode')],
     (), ['board fields', 'steps and dice of the move factory', 'element tree'])


prop('C32', "A game followed from FIBS messages stays in step with the server's boards",
     """A client that takes up a game at any board line and from then on only carries out what the messages say (who rolled what, who moved what, who doubled, took, dropped, offered, refused or accepted
     a resignation, for how many points, who won) holds after each message the board, dice, cube, turn and score of the server's game, whoever plays, watches or chats in between: every later board line shows the board it holds.""",
     ['histories', 'all_inputs'],
     """every match situation, position, pair of names, colour, sequence of turns and cube or resignation actions up to the end of the game, played or watched, with any other messages in between""",
     """The tests read single messages of single kinds; being in step needs the classification of the lines, the helpers that read them and the board editor to agree over a whole game.""",
     ['bglib/protocol/fibs.py', 'bglib/encoding/FIBS.py', 'bglib/model/boardeditor.py'],
     [('kinds', 'bglib/protocol/fibs.py CookieMonster.make_cookie'), ('reading of messages', 'bglib/encoding/FIBS.py decode, get_name, get_dice, get_move, get_score, get_resign_score, get_taker_name'),
      ('carrying out', 'bglib/model/boardeditor.py BoardEditor')],
     (), ['kind of each line', 'board fields after each line'])


if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=True) + '\n')
    print(len(P), 'properties')
