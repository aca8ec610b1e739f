L.append(P("C24", "Automatic derivatives are exact and networks are built from their parameters",
 "For every expression over addition, subtraction, multiplication, division, exponential, ReLU and sigmoid, automatic differentiation computes the value of the expression and its exact derivative; the activation functions are finite for every finite argument. A product of vectors and a neuron give the value and the derivative in respect to each input, weight and bias, and a network built from a parameter vector uses each parameter exactly once, in order, and differentiates by exactly the chosen parameter. Operations of vectors (sum, scaling, product, length, cosine similarity) are computed per definition.",
 ["inputs"], "every expression of depth 2 (thorough 3) over 11 leaves, 428 arguments of the activation functions, neurons with up to 10 (thorough 20) inputs and some up to 257 with every marked value, networks of every small and some large shapes with every marked parameter, chains of up to 130 operations",
 "the tests contain no derivative at all",
 ["src/ad.rs", "src/Nn.rs", "src/mlutils.rs"],
 [("add, sub, mul, div, exp, reluAct, sigmoidAct, dot, calc", "src/ad.rs"), ("buildNnFromParameters", "src/Nn.rs"), ("vecAdd, vecScale, vecDot, vecLen, calcCosineSim", "src/mlutils.rs")],
 observe=["value and derivative of a expression", "weights of a network"],
 technique="exhaustive enumeration of expression trees and networks through the real functions against the calculus",
 note="Leaves of a small grid; expressions next to a singularity are not judged; networks are also compared with the difference quotient."))
L.append(P("C25", "Environments follow their rules",
 "In Pong the ball moves one place up or down in each step, left or right in each second step, is reflected by the borders, contact with the bat counts as hit and otherwise as miss when it reaches the ground, and a new ball starts in the upper half; the bat moves in the direction of the last operation and stays in its range, and the reasoner perceives on which side of the bat the ball is. In tic-tac-toe the players alternate, a move marks exactly one free place, nobody moves after the game is decided, and exactly the player with three in a row is the winner, otherwise it is a draw when the field is full. The programs for the environments never crash.",
 ["inputs", "histories"], "every state of the ball and the bat of four fields (of a fifth with some bats) through one step, every draw of a new ball, every sequence of the first 3 (thorough 4) draws of places in a game, 8 (thorough 24) series of 26 games, 8 (thorough 40) runs of the complete programs",
 "the tests run no environment; results depend on random numbers and on decisions of the reasoner",
 ["src/EnvPong3.rs", "src/Reasoner1Entry.rs", "src/ProcTicTacToe.rs", "src/ProcChaosEntry.rs"],
 [("simStep", "src/EnvPong3.rs"), ("reasoner1Entry, OpPong", "src/Reasoner1Entry.rs"), ("run, isWin", "src/ProcTicTacToe.rs"), ("procChaosEntry", "src/ProcChaosEntry.rs")],
 observe=["state of the environment after a step", "printed games", "printed perceptions and score"],
 technique="explicit enumeration of all states of Pong through the real step function against its transition relation; enumeration of random choices of games under controlled randomness with a monitor for the rules",
 note="The monitor reads the printed games; draws after the enumerated ones are fixed by the salt. Whole programs run under one schedule."))
L.append(P("C26", "Images and convolution compute what is documented",
 "Reading and writing an image touches exactly the addressed pixel, reading outside of the image gives the default value and writing outside of it does nothing. Cutting out, drawing a box, a filled circle or a line (3 pixels wide) sets exactly the pixels of the shape and clips at the borders; sums, differences, quotients and the squared length are per pixel. The convolution is the sum over the whole kernel, centered at the pixel, with zeros outside of the image; the variant without border gives zero there. Gabor kernels have the documented values.",
 ["inputs"], "every position and size for images up to 4x4 (thorough 6x6), every kernel size up to 5x5, every circle and line in fields of about 9x9 (thorough 14x14), images up to 300 rows or columns, kernels up to 17x5, a grid of parameters of Gabor kernels",
 "the tests contain no image",
 ["src/Map2d.rs", "src/ModVisionC.rs"],
 [("readAt, writeAt, crop, map2dDrawBox, map2dDrawCircle, drawLine", "src/Map2d.rs"), ("convo, convWithoutBorder, generateGaborKernel", "src/ModVisionC.rs")],
 observe=["pixels of the result"],
 technique="exhaustive enumeration of images, positions, sizes and kernels through the real functions against a pixelwise reference",
 note="Pixels exactly at the border of a line are not judged; three patterns of pixel values."))
L.append(P("C27", "Prototype classifiers keep evidence for what they saw",
 "A perceived image is quantised into truth values, compared with all prototypes, and belongs to the most similar prototype if the similarity (expectation) is at least 0.5, which is then revised with exactly this image; otherwise it becomes a new prototype. No other prototype is changed by it. The limit of attention keeps the first items unchanged, and vectors of truth values are revised, compared and summarised per element.",
 ["inputs", "histories"], "every history of images up to a length over a small alphabet through both classifiers, step by step, up to 40 prototypes with up to 6 channels, every list of similarities of a grid",
 "the tests contain no perception; the state of a classifier depends on the complete history",
 ["src/ModVisionB.rs", "src/ModVisionD.rs", "src/TvVec.rs", "src/AeraishPerceptionComp.rs"],
 [("classify, quantisation", "src/ModVisionB.rs"), ("classifier with maps", "src/ModVisionD.rs"), ("comparison of truth value vectors", "src/TvVec.rs"), ("limit", "src/AeraishPerceptionComp.rs")],
 observe=["chosen class", "prototypes after each step"],
 technique="exhaustive enumeration of histories of perceptions on the real classifiers, each step against a reference",
 note="Ties between prototypes may be resolved in any way; small alphabets of images."))
L.append(P("C28", "Natural language gives exactly the relations which the network selects",
 "A sentence given with !.nlp is split into words and presented to the network as the codes of their parts of speech, aligned to the end, followed by the actions which were done already; the action with the largest output is done until the network selects no more action (at most 10). Each relation action adds exactly its relation of the words of the sentence, with head and arguments in the defined order, as a judgement with confidence 0.998; a relation whose words are missing in the sentence is left out. A sentence with a unknown word, a sentence of any length, a missing or unusable network and repeated sentences never end the session and add nothing else.",
 ["inputs", "histories"], "every sequence of up to two (thorough three) actions for sentences of every length up to 7 and of 11, 12, 13 and 30 words, every known word at every place, every feedback of an action, every pair of two sentences of 16 in a session with 10 networks, 4 kinds of unusable networks",
 "the tests contain no natural language; a crash needs a certain combination of the sentence and the network",
 ["src/ModNlpA.rs", "src/NarModuleNlp3.rs", "src/NarInputFacade.rs"],
 [("network_run, conv_seq_to_nninput, conv_tokens_to_poss, conv_rel_to_narsese", "src/ModNlpA.rs"), ("process", "src/NarModuleNlp3.rs"), ("!.nlp", "src/NarInputFacade.rs")],
 observe=["actions and relations", "tasks of the reasoner after the sentences"],
 technique="exhaustive enumeration of networks (written by the check) and sentences through the real module against a reference interpreter",
 note="The networks have the shape of the trained one, but are written by the check; training isn't covered (it takes hours)."))
L.append(P("C29", "Evaluation reports when a question was answered",
 "The evaluation of a program runs up to 180 cycles and reports the number of cycles before the one with the first answer, or that there is none; a question about inheritance whose answer follows from the knowledge by a chain of statements, and each of the examples for the evaluation, is answered, and a question without relevant knowledge never is. The benchmark programs evaluate each file with a fresh reasoner, in order, and compute the score and the ratio of unanswered questions from exactly these results.",
 ["inputs", "histories"], "chains of 1 to 4 statements with the question at every place, chains of up to 5 statements among 25 others, answers in early and late cycles up to the last one and after it, 4 (thorough 16) series of random numbers; every list of up to 3 (thorough 4) of 6 files for the benchmarks; 8 (thorough 64) runs of each example",
 "the tests run no evaluation; the result depends on scheduling and random numbers",
 ["src/Eval.rs", "src/bin/main.rs", "src/NarWorkingCycle.rs", "src/NarUtilReadn.rs"],
 [("run", "src/Eval.rs"), ("bQA and bQA2", "src/bin/main.rs")],
 observe=["result of the evaluation", "printed results of the benchmarks"],
 technique="enumeration of programs and series of random numbers under the controlled scheduler, the evaluation against a monitor which counts cycles and answers; enumeration of file lists through the real benchmark program",
 note="One schedule (the threads of the reasoner work as soon as they can) per series of random numbers."))
