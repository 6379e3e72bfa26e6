ASSUME = "Assumes: reals for floats, unbounded integers, Python source semantics for numba code, the obligation generator and z3; library functions by stated contracts (listed in the evidence). Parts that the generator cannot reach after a change are covered by a bounded concrete check instead, labelled as such."

prop("C01", "Square grids: transitions and coordinates follow the grid geometry",
     "On a square grid of any width and height, with or without self-transitions, each action moves the agent to exactly the neighbouring cell in that action's direction with certainty, is unavailable where that cell lies outside the grid, and the self-transition stays in place. Converting a state number to coordinates and back is the identity, coordinates lie inside the grid, and different states have different coordinates. Moving somewhere and taking the opposite action leads back.",
     ["inputs", "configurations"], "all grid widths and heights >= 1, with and without self-transitions, all states and actions",
     "The tests check one or two fixed grid sizes (mostly square 5x5 / 10x10 ones) and a handful of cells; width/height mix-ups and boundary slips on other shapes are invisible to them.",
     [M], [("transition function construction", M + ": SquareGridMDP"), ("coordinate conversion", M + ": GridMDP.state_to_idx / idx_to_state")],
     "Obligations for all widths, heights, states and actions, from the constructor's source. " + ASSUME)

prop("C02", "Hexagonal grids: transitions and distance follow the hexagonal geometry",
     "On a hexagonal grid of any width and height, each of the six actions moves to exactly the neighbouring hexagon in that direction with certainty (odd columns being shifted), is unavailable where that hexagon lies outside the grid, and the optional self-transition stays in place; opposite actions undo each other. State numbers and coordinates convert back and forth without loss. The hexagonal distance is a metric and two different cells are at distance one exactly when one action connects them.",
     ["inputs", "configurations"], "all grid widths and heights >= 1, with and without self-transitions, all states, actions and triples of cells",
     "The tests check a few entries of the transition matrix of one fixed size; parity, boundary and non-square cases and the metric laws need all sizes and all cells.",
     [M, "maMDP/grid_utils.py"], [("transition function construction", M + ": HexGridMDP"), ("distance", "maMDP/grid_utils.py: hex_dist")],
     "Obligations for all sizes, states and actions; metric laws as lemmas over the distance contract. " + ASSUME)

prop("C03", "Walls block exactly the walled states, and adjacency stays in step",
     "Whatever walls are given at construction, assigned later, added by cell or range, or removed again, no transition leads into or out of a walled state and every transition between two unwalled states is exactly the one the unwalled world has. The adjacency relation always agrees with the current transitions. Wall specifications of the wrong shape or with entries other than 0 and 1 are rejected and leave the world unchanged.",
     ["inputs", "histories"], "all MDPs, all wall vectors, all sequences of wall assignments, additions and resets",
     "The tests set walls once on a fixed grid and look at a few entries; stale walls or stale adjacency after a second assignment, and interactions of several edits, need all histories.",
     [M], [("walls setter", M + ": MDP.walls"), ("wall editing", M + ": GridMDP.add_wall_xy, reset_walls")],
     "Each wall operation is proved from an arbitrary earlier wall state, so every history follows by induction. " + ASSUME)

prop("C04", "Transition queries agree with the transition probabilities",
     "Asking for the next state of a state and an action returns a state that the transition function gives positive probability, sampled with those probabilities when there are several, and raises an error if the action is not available there. The actions reported as available in a state are exactly those with a successor; two states are adjacent exactly when some action leads from one to the other; the action(s) reported between two states are exactly those that lead there, or the most probable one. A trajectory converts into its state-action pairs, and a trajectory with a gap is rejected.",
     ["inputs", "configurations"], "all MDPs (deterministic or not), all states, actions and trajectories",
     "The tests query a few states of small deterministic grids; unavailable actions, stochastic transitions and gaps at particular places are not reached.",
     [M], [("queries", M + ": MDP.get_next_state, state_valid_actions, is_adjacent, _state_pair_to_action, _trajectory_to_state_action")],
     "Obligations for every transition function; the sampling library call is an assumed contract (it draws from the support with the given probabilities), the argument passed to it is proved. " + ASSUME)

prop("C05", "Agent markers: one feature per agent, 1 exactly at its position",
     "In an environment with any number of agents, the world has one extra feature per agent, in the order of the agents, which is 1 in the agent's current state and 0 everywhere else, whatever sequence of moves and repositionings took place (until the marker itself is consumed). Moving or placing one agent leaves every other feature, the other agents' positions and histories, and the transitions untouched, and a position outside the world is rejected without changing anything. Removing the agents' features restores exactly the features without agents.",
     ["inputs", "histories"], "all MDPs, numbers of agents, positions and sequences of moves and placements",
     "The tests place one or two agents and look at the marker after a single move; index shifts between agents and stale markers need arbitrary numbers of agents and histories.",
     [M, A, E], [("marker update", M + ": MDP.add_agent_feature, update_agent_feature, remove_agent_features"), ("position setter", A + ": AttachedAgent.position"), ("placement", E + ": Environment.set_agent_position")],
     "Position changes are proved for an agent at any index among any number of agents from an arbitrary state; environment construction is proved for 1, 2 and 3 agents (with symbolic MDPs). " + ASSUME)

prop("C06", "Consumption removes exactly the consumed features and counts them once",
     "When an agent steps into a state, exactly those features it consumes that are present (positive) there are set to zero in that state, and nothing else changes; each removed feature is counted once for that agent and for no other. Features that are absent or that the agent does not consume are never removed or counted, even if listed twice. Consuming directly from the world reports the same counts.",
     ["inputs", "histories"], "all MDPs, feature values, lists of consumed features (with repetitions), agents and histories of steps",
     "The tests consume one feature in one state; repeated entries, several features at once, counts over many steps and effects on other states or agents are not sampled.",
     [M, E], [("consumption", M + ": MDP.consume_features"), ("per-agent accounting", E + ": Environment.step, _consume_features")],
     "Proved for any list of features and any number of agents from an arbitrary state; the agent's own move enters through its contract (C05, C08). " + ASSUME)

AS = "maMDP/algorithms/action_selection.py"

prop("C07", "Resetting an environment restores its initial situation",
     "After any sequence of steps, placements and consumptions, resetting the environment puts every agent back into its starting state, leaves each position history with just that state, and restores every feature value (including the agents' markers) to its initial value; transitions are unaffected. Resetting twice, or resetting after further steps, gives the same result, and what is restored never depends on what happened in between.",
     ["inputs", "histories"], "all MDPs, numbers of agents, and histories of steps, placements, consumptions and resets",
     "The tests reset after one particular run; aliasing between the saved initial situation and the live one only shows after several steps and resets, on some features.",
     [M, A, E], [("reset", E + ": Environment.reset"), ("saved features", M + ": MDP.features_with_agents, reset"), ("agent reset", A + ": AttachedAgent.reset")],
     "Reset is proved from an arbitrary reachable situation with any number of agents; the saved initial situation is traced from construction for 1-3 agents. " + ASSUME)

prop("C08", "Agents move along real transitions, as their policy says, one agent at a time",
     "A step moves only the named agent, to a state that the action its policy chooses for its current state can reach, appends that state to its history and counts one step; an agent that has not been fit, or has no action there, or an unknown agent name, is rejected and nothing moves. Making several steps makes exactly the requested number, each starting where the previous one ended, returns the visited states in order, and stops early only when asked to stop on a catch and the last step (and no earlier one) caught another agent. With refitting, the agent is refit before every step from where it then is, with the moves planned for that point of its turn.",
     ["inputs", "histories"], "all MDPs, numbers of agents, policies, numbers of steps, and stopping and refitting modes",
     "The tests make a few steps with one agent on a deterministic grid; wrong agent, wrong order of states, one step too many or stale plans need arbitrary agents, histories and modes.",
     [A, E, "maMDP/algorithms/base.py"], [("step", A + ": AttachedAgent.step"), ("environment step", E + ": Environment.step, step_multi, _check_agents_caught, fit")],
     "Single steps and step sequences without refitting are proved for any number of agents and steps; refitting is proved for any number of steps with 1, 2 and 3 agents. The policy enters through the selectors' contracts (C12, C13). " + ASSUME)

prop("C09", "Predicted next-state distributions mix transitions with position and policy",
     "The predicted distribution of an agent's next state is exactly the sum, over states and actions, of the probability of being in that state, times the policy's probability of the action, times the transition probability, whether the starting point is one state or a distribution over states. It has one entry per state, sums to one if the inputs do, and predicting moves no agent and changes nothing in the world.",
     ["inputs", "configurations"], "all MDPs (deterministic or not), policies, starting states and starting distributions",
     "The tests look at one prediction on a small deterministic grid; mixtures over several starting states and stochastic transitions are not sampled.",
     [A, E], [("prediction", A + ": AttachedAgent.step_proba"), ("environment prediction", E + ": Environment.step_proba")],
     "The result is proved equal to the mixture for every size; that it sums to one is a lemma over the mixture (interchange of finite sums assumed). " + ASSUME)

DPF = "maMDP/algorithms/dynamic_programming.py"

prop("C10", "Value iteration returns values that satisfy the Bellman equation",
     "The value of taking an action is the expected reward of the state it leads to plus the discounted value of that state, the value of a state is that of its best available action (or, in the soft version, the log of the sum of the exponentials of the available actions' values), and zero if there is none. Unavailable actions are worth minus infinity. The reward of a state is the reward function applied to its current features. If it stops before the given number of sweeps, no value changed by more than the tolerance in the last one, so the equation holds for the returned values up to discount times tolerance. A discount outside (0, 1) is rejected, and solving changes neither the world nor the reward function.",
     ["inputs", "configurations"], "all MDPs (deterministic or not, with walls or states without actions), reward functions, discounts in (0, 1), tolerances and numbers of sweeps",
     "The tests compare against stored values of one small grid; stochastic transitions, negative rewards, states without actions, the number of sweeps and other tolerances are not sampled.",
     [DPF], [("sweep", DPF + ": state_value_iterator"), ("solver", DPF + ": solve_value_iteration"), ("algorithm", DPF + ": ValueIteration")],
     "One sweep is proved for every MDP and every set of earlier values, the solver for any number of sweeps, and the Bellman error bound as a lemma over both contracts (finite sums linear and monotone). Convergence itself (that it does stop early) is not claimed. " + ASSUME)

prop("C12", "Greedy action selection chooses exactly the best actions",
     "The greedy policy gives every state with at least one value an action whose value is the highest there, missing values counting as unavailable; the probabilistic version gives each of the best actions the same probability and every other action zero. States without any value get no action (-1) and no probabilities. The action values passed in are never modified, and input that is not a two-dimensional array with some value is rejected.",
     ["inputs"], "all action-value tables of any size, with finite values, minus infinity and missing values, and any random choices",
     "The tests use one or two small tables; ties, rows without values and rows where all actions are unavailable need all tables.",
     [AS], [("greedy selection", AS + ": MaxActionSelector, random_max"), ("missing values", AS + ": ActionSelector.get_pi, get_pi_p")],
     "Obligations for tables of any size; the random choice between ties is an assumed library contract (an element of its argument). " + ASSUME)

prop("C13", "Softmax action selection gives the softmax of the available actions",
     "Each state's action probabilities are the exponentials of value over temperature, normalised over the actions available there; they are finite, non-negative and sum to one, unavailable actions get zero, a higher value never gets a lower probability, and a state where nothing is available gets equal probabilities. The sampled policy picks an available action whenever there is one. States without any value get no action (-1) and no probabilities, a temperature that is not positive is rejected, and the values passed in are never modified.",
     ["inputs"], "all action-value tables of any size, with finite values, minus infinity and missing values, all positive temperatures, and any random choices",
     "The tests compare one small table; overflow for large values, rows with unavailable actions and other temperatures are not sampled.",
     [AS], [("softmax", AS + ": softmax"), ("selection", AS + ": SoftmaxActionSelector")],
     "Obligations for tables of any size over the reals (exp as an uninterpreted positive, strictly increasing function); rounding and overflow of real floats only in the concrete check. " + ASSUME)

prop("C17", "Planned moves are dealt out over the coming turns without loss",
     "Given the current move within a turn, the number of turns, the moves per turn and the total number of moves to plan, each turn is assigned exactly those planned moves that fall into it: the first turn what is left of it, full turns after that, and the remainder in the last. Together they make up the requested total as far as the turns have room; no turn gets more than its moves or a negative number. A current move outside the turn is rejected.",
     ["inputs"], "all current moves, numbers of turns, moves per turn and totals",
     "The tests compare a few fixed combinations; the arithmetic at turn boundaries needs all of them.",
     [E], [("planning", E + ": get_n_moves_plan")],
     "Proved for all numbers, with a ghost potential for the sum. " + ASSUME)

MC = "maMDP/algorithms/mcts.py"
IRL = "maMDP/algorithms/irl.py"

prop("C14", "Tree search expands unvisited successors first, then follows the UCB",
     "In tree search the candidates at a node are exactly the successors of its available actions. While the search is still selecting and some candidate has never been visited, one of those is chosen and the rest of the path is simulated by choosing among the successors; otherwise a candidate with the highest upper confidence bound is chosen, which is its mean value plus the exploration parameter times the square root of twice the log of the node's visits over one plus its own visits, and selection goes on. The value of an action at the root is the accumulated value of its successor divided by one plus its visits, for exactly the available actions. None of this modifies values, visit counts or transitions.",
     ["inputs", "histories"], "all transition functions, values, visit counts, candidate lists, exploration parameters and random choices",
     "The tests run whole searches and look at rough outcomes; which successor is chosen for given counts, ties, repeated candidates and zero visits are not sampled.",
     [MC], [("candidates", MC + ": get_actions_states"), ("bound and choice", MC + ": UCB, MCTS_next_node"), ("action values", MC + ": get_MCTS_action_values")],
     "Obligations for every number of states, actions and candidates; log and square root are uninterpreted, the random choice is an assumed library contract (an element of its argument). " + ASSUME)

prop("C20", "Reward inference matches the features of the observed trajectories",
     "Feature matching weighs each feature by how often it was present in the states entered by the given trajectories (after each first state), summed over trajectories and, when there is one MDP per trajectory, with that MDP's features; different numbers of MDPs and trajectories are rejected. Predicted visitation frequencies are those of following the policy from the observed distribution of starting states for the given number of steps, the first being the start itself. Maximum causal entropy inference moves the weights, once per round and by the learning rate, along the difference between observed and predicted feature counts, where the policy is solved anew for the current weights in each round, and stops early only when that difference is within tolerance. Features to be ignored end with weight zero, and neither MDPs nor trajectories are modified.",
     ["inputs", "histories"], "all MDPs, sets of trajectories, policies, initial weights, learning rates, numbers of rounds and lists of ignored features",
     "The tests compare one fit on a small grid; several trajectories, stochastic transitions, ignored features, several MDPs and the recursion over steps are not sampled.",
     [IRL], [("visitation", IRL + ": state_visitation_iterator, MaxCausalEntIRL._get_state_visitation_frequencies"), ("feature matching", IRL + ": MFFeatureMatching._fit"), ("gradient", IRL + ": MaxCausalEntIRL")],
     "Proved for any number of states, features, trajectories, steps and rounds by loop summaries with contract-proposed invariants; trajectories of different lengths for up to 3 of them, several MDPs for 2. With a decaying learning rate only the first round's rate is stated. Solver and selector enter through their contracts (C10, C12, C13). " + ASSUME)

prop("C15", "Tree-search iterations are real paths, add up rewards, and are backed up",
     "Every iteration of a tree search that ignores other agents starts at the agent's position, makes exactly the planned number of moves, each along an available action from the node before, and its reward is the sum of the rewards of the nodes entered, as the features are at that time: the agent's marker is where it is coming from, and features it consumes are gone from the nodes it has passed. Every iteration starts from the same situation. The value of a state is the sum of the rewards of the iterations that pass it, once per visit, and its count the number of visits; the action values are those of the agent's state, unknown elsewhere and for unavailable actions. Planning moves no agent and changes nothing in the world.",
     ["inputs", "histories"], "all worlds, reward functions, consumption, numbers of moves, iterations and random choices",
     "The tests look at whether a search with many iterations finds an obvious reward; repeated visits, consumption within a path, moves and bookkeeping are not looked at.",
     [MC], [("iteration", MC + ": mcts_iteration"), ("search", MC + ": run_mcts, extract_all_agent_info"), ("algorithm", MC + ": MCTS._fit")],
     "One iteration of any number of moves and a search of any number of iterations are proved by loop summaries with contract-proposed closed forms; the choice of nodes enters through its contract (C14). " + ASSUME)

prop("C21", "Planning with others: who moves, who is eaten or caught, what it is worth",
     "In a search that simulates other agents, agents move in turn, the planning agent first, as many moves per turn as planned. Before every move, agents that share a state with one that eats them become inactive and move no more; the planning agent gains what each agent it eats there is worth to it (its reward function's weight for that agent's marker), and if it is itself eaten it incurs the cost of being caught and the iteration ends. An agent eats another exactly if it consumes its marker. Other agents move to a reachable state: any (random), the likeliest after one of their best actions by their own reward function and the features as they are (greedy), or after an available action (softmax); what they consume is gone for everyone. The iteration's reward is that of the nodes entered plus these gains and costs.",
     ["inputs", "histories"], "all worlds, numbers of agents, consumption relations, positions, action values, moves per turn and random choices",
     "The tests run a few interactive searches and look at the action chosen; order of moves, several agents in one state, being eaten before moving, and consumption by others are not looked at.",
     [MC], [("catching", MC + ": check_agent_overlap"), ("other agents' moves", MC + ": get_opponent_next_state"), ("agents' description", MC + ": extract_all_agent_info, MCTS.create_agent_info"), ("interactive iteration", MC + ": mcts_iteration")],
     "Catching and the choice of the other agents' moves are proved for any number of agents, states and actions; the description of agents for 2 and 3 of them; the interactive iteration for eight plans of moves with 2 and 3 agents (any world), all others by the concrete check. Caching of other agents' values is not covered. " + ASSUME)
