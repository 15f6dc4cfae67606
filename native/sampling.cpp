/*
 * Enumerates all outcomes of the methods for sampling instances, features and outputs, and of the methods for
 * partitioning a dataset, by controlling the random number generator they rely on.
 *
 * Reads one configuration per line from the standard input. For each of them, all sequences of random choices (up to a
 * certain length) are explored and the resulting outcomes, together with their probabilities, are printed.
 */
#include "mlrl/common/input/feature_matrix_c_contiguous.hpp"
#include "mlrl/common/input/label_matrix_c_contiguous.hpp"
#include "mlrl/common/sampling/feature_sampling_no.hpp"
#include "mlrl/common/sampling/feature_sampling_without_replacement.hpp"
#include "mlrl/common/sampling/instance_sampling_no.hpp"
#include "mlrl/common/sampling/instance_sampling_stratified_example_wise.hpp"
#include "mlrl/common/sampling/instance_sampling_stratified_output_wise.hpp"
#include "mlrl/common/sampling/instance_sampling_with_replacement.hpp"
#include "mlrl/common/sampling/instance_sampling_without_replacement.hpp"
#include "mlrl/common/sampling/output_sampling_no.hpp"
#include "mlrl/common/sampling/output_sampling_round_robin.hpp"
#include "mlrl/common/sampling/output_sampling_without_replacement.hpp"
#include "mlrl/common/sampling/partition_bi.hpp"
#include "mlrl/common/sampling/partition_sampling_bi_random.hpp"
#include "mlrl/common/sampling/partition_sampling_bi_stratified_example_wise.hpp"
#include "mlrl/common/sampling/partition_sampling_bi_stratified_output_wise.hpp"
#include "mlrl/common/sampling/partition_sampling_no.hpp"
#include "mlrl/common/sampling/partition_single.hpp"
#include "mlrl/common/sampling/weight_vector_bit.hpp"
#include "mlrl/common/sampling/weight_vector_dense.hpp"
#include "mlrl/common/sampling/weight_vector_equal.hpp"

#include <algorithm>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <vector>

// ---------------------------------------------------------------------------------------------------------------------
// The random number generator
// ---------------------------------------------------------------------------------------------------------------------

static std::vector<uint32> prefix;
static std::vector<uint32> alternatives;
static std::vector<uint32> taken;
static size_t maxDepth = 0;
static bool truncated = false;
static bool invalid = false;

// Replaces the function that is provided by the library
uint32 RNG::randomInt(uint32 min, uint32 max) {
    if (max <= min) {
        invalid = true;
        return min;
    }

    uint32 n = max - min;
    size_t i = alternatives.size();
    uint32 choice;

    if (i < prefix.size()) {
        choice = prefix[i];
    } else if (i < maxDepth) {
        choice = 0;
    } else {
        choice = static_cast<uint32>(i) % n;
        truncated = true;

        if (i > maxDepth + 100000) {
            std::cout << "DIVERGES" << std::endl;
            exit(3);
        }
    }

    alternatives.push_back(n);
    taken.push_back(choice);
    return min + choice;
}

struct Outcome {
        double probability = 0;
        unsigned long complete = 0;
        unsigned long incomplete = 0;
};

static void explore(const std::function<std::string()>& function, size_t depth, unsigned long limit) {
    std::map<std::string, Outcome> outcomes;
    std::vector<std::vector<uint32>> stack(1);
    unsigned long executions = 0, choices = 0;
    bool stopped = false;

    while (!stack.empty()) {
        if (executions >= limit) {
            stopped = true;
            break;
        }

        prefix = stack.back();
        stack.pop_back();
        alternatives.clear();
        taken.clear();
        truncated = invalid = false;
        maxDepth = depth;
        std::string result = function();
        executions++;

        if (invalid) {
            result += " INVALID";
        }

        Outcome& outcome = outcomes[result];
        double p = 1;

        for (uint32 a : alternatives) {
            p /= a;
        }

        if (truncated) {
            outcome.incomplete++;
        } else {
            outcome.complete++;
            outcome.probability += p;
        }

        size_t known = prefix.size();
        size_t end = std::min(depth, taken.size());
        choices += end - std::min(end, known);
        std::vector<uint32> path = taken;

        for (size_t i = known; i < end; i++) {
            for (uint32 v = 1; v < alternatives[i]; v++) {
                std::vector<uint32> next(path.begin(), path.begin() + i);
                next.push_back(v);
                stack.push_back(next);
            }
        }
    }

    std::cout.precision(17);

    for (auto& entry : outcomes) {
        std::cout << "O " << entry.second.probability << " " << entry.second.complete << " " << entry.second.incomplete
                  << " " << entry.first << "\n";
    }

    std::cout << "END " << executions << " " << choices << " " << stopped << std::endl;
}

// ---------------------------------------------------------------------------------------------------------------------
// Outcomes
// ---------------------------------------------------------------------------------------------------------------------

static std::string toString(const IWeightVector& vector, uint32 n) {
    std::ostringstream s;

    if (auto* bit = dynamic_cast<const BitWeightVector*>(&vector)) {
        for (uint32 i = 0; i < n; i++) s << (i ? "," : "") << ((*bit)[i] ? 1 : 0);
        s << ";" << bit->getNumNonZeroWeights();
    } else if (auto* dense = dynamic_cast<const DenseWeightVector<uint32>*>(&vector)) {
        for (uint32 i = 0; i < n; i++) s << (i ? "," : "") << (*dense)[i];
        s << ";" << dense->getNumNonZeroWeights();
    } else if (auto* equal = dynamic_cast<const EqualWeightVector*>(&vector)) {
        for (uint32 i = 0; i < n; i++) s << (i ? "," : "") << (*equal)[i];
        s << ";" << equal->getNumNonZeroWeights();
    } else {
        s << "?;0";
    }

    s << ";" << (vector.hasZeroWeights() ? 1 : 0);
    return s.str();
}

static std::string toString(const IIndexVector& vector) {
    std::ostringstream s;

    for (uint32 i = 0; i < vector.getNumElements(); i++) s << (i ? "," : "") << vector.getIndex(i);

    return s.str();
}

static std::string toString(IPartition& partition) {
    std::ostringstream s;

    if (auto* bi = dynamic_cast<BiPartition*>(&partition)) {
        for (uint32 i = 0; i < bi->getNumFirst(); i++) s << (i ? "," : "") << bi->first_cbegin()[i];
        s << ";";
        for (uint32 i = 0; i < bi->getNumSecond(); i++) s << (i ? "," : "") << bi->second_cbegin()[i];
    } else if (auto* single = dynamic_cast<SinglePartition*>(&partition)) {
        for (uint32 i = 0; i < single->getNumElements(); i++) s << (i ? "," : "") << single->cbegin()[i];
        s << ";";
    }

    return s.str();
}

struct Labels {
        uint32 n, l;
        std::vector<uint8> dense;
        std::vector<uint32> indices, indptr;

        Labels(uint32 n, uint32 l, const std::string& bits) : n(n), l(l), dense(n * l), indptr(n + 1) {
            for (uint32 i = 0; i < n; i++) {
                for (uint32 j = 0; j < l; j++) {
                    dense[i * l + j] = bits[i * l + j] == '1';
                    if (dense[i * l + j]) indices.push_back(j);
                }
                indptr[i + 1] = static_cast<uint32>(indices.size());
            }
            indices.reserve(n * l + 1);
        }
};

static std::unique_ptr<IClassificationInstanceSamplingFactory> createInstanceSamplingFactory(
  const std::string& method, ReadableProperty<RNGConfig> rng, float32 size, uint32 min, uint32 max) {
    if (method == "with") {
        InstanceSamplingWithReplacementConfig c(rng);
        c.setSampleSize(size).setMinSamples(min).setMaxSamples(max);
        return c.createClassificationInstanceSamplingFactory();
    } else if (method == "without") {
        InstanceSamplingWithoutReplacementConfig c(rng);
        c.setSampleSize(size).setMinSamples(min).setMaxSamples(max);
        return c.createClassificationInstanceSamplingFactory();
    } else if (method == "example") {
        ExampleWiseStratifiedInstanceSamplingConfig c(rng);
        c.setSampleSize(size).setMinSamples(min).setMaxSamples(max);
        return c.createClassificationInstanceSamplingFactory();
    } else if (method == "output") {
        OutputWiseStratifiedInstanceSamplingConfig c(rng);
        c.setSampleSize(size).setMinSamples(min).setMaxSamples(max);
        return c.createClassificationInstanceSamplingFactory();
    }
    NoInstanceSamplingConfig c;
    return c.createClassificationInstanceSamplingFactory();
}

static char STATISTICS[4096];

int main() {
    std::string line;

    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string kind, method;
        size_t depth;
        unsigned long limit;
        uint32 rounds;
        in >> kind >> method >> depth >> limit >> rounds;
        std::unique_ptr<RNGConfig> rngConfigPtr = std::make_unique<RNGConfig>();
        ReadableProperty<RNGConfig> rng = util::readableProperty<RNGConfig>(rngConfigPtr);
        // The statistics are not taken into account by any of the methods
        IStatistics& statistics = *reinterpret_cast<IStatistics*>(STATISTICS);

        if (kind == "instance") {
            uint32 n, l, sparse, min, max;
            float32 size;
            std::string bits, first;
            in >> n >> l >> bits >> sparse >> first >> size >> min >> max;
            Labels labels(n, l, bits);
            explore([&]() {
                std::unique_ptr<IClassificationInstanceSamplingFactory> factory =
                  createInstanceSamplingFactory(method, rng, size, min, max);
                std::unique_ptr<SinglePartition> single;
                std::unique_ptr<BiPartition> bi;
                std::unique_ptr<IInstanceSampling> sampling;
                CContiguousView<const uint8> dense(labels.dense.data(), n, l);
                BinaryCsrView csr(labels.indices.data(), labels.indptr.data(), n, l);

                if (first == "-") {
                    single = std::make_unique<SinglePartition>(n);
                    sampling = sparse ? factory->create(csr, *single, statistics)
                                      : factory->create(dense, *single, statistics);
                } else {
                    uint32 numFirst = std::count(first.begin(), first.end(), '1');
                    bi = std::make_unique<BiPartition>(numFirst, n - numFirst);
                    uint32 a = 0, b = 0;

                    for (uint32 i = 0; i < n; i++) {
                        if (first[i] == '1') bi->first_begin()[a++] = i;
                        else bi->second_begin()[b++] = i;
                    }

                    sampling = sparse ? factory->create(csr, *bi, statistics)
                                      : factory->create(dense, *bi, statistics);
                }

                std::string result;
                for (uint32 r = 0; r < rounds; r++) result += (r ? "/" : "") + toString(sampling->sample(), n);
                return result;
            }, depth, limit);
        } else if (kind == "feature") {
            uint32 n, min, max, retained;
            float32 size;
            in >> n >> size >> min >> max >> retained;
            std::vector<float32> values(n);
            std::unique_ptr<ICContiguousFeatureMatrix> matrix = createCContiguousFeatureMatrix(values.data(), 1, n);
            explore([&]() {
                std::unique_ptr<IFeatureSampling> sampling;

                if (method == "none") {
                    sampling = NoFeatureSamplingConfig().createFeatureSamplingFactory(*matrix)->create();
                } else {
                    FeatureSamplingWithoutReplacementConfig c(rng);
                    c.setSampleSize(size).setMinSamples(min).setMaxSamples(max).setNumRetained(retained);
                    sampling = c.createFeatureSamplingFactory(*matrix)->create();
                }

                std::unique_ptr<IFeatureSampling> beam;
                std::string result;

                if (method == "beam" || method == "beam-resample") {
                    if (rounds > 1) result = toString(sampling->sample()) + "/";
                    beam = sampling->createBeamSearchFeatureSampling(method == "beam-resample");
                    result += toString(beam->sample()) + "/" + toString(beam->sample());
                } else {
                    for (uint32 r = 0; r < rounds; r++) result += (r ? "/" : "") + toString(sampling->sample());
                }

                return result;
            }, depth, limit);
        } else if (kind == "output") {
            uint32 n, min, max;
            float32 size;
            in >> n >> size >> min >> max;
            std::vector<uint8> values(n);
            std::unique_ptr<ICContiguousLabelMatrix> matrix = createCContiguousLabelMatrix(values.data(), 1, n);
            explore([&]() {
                std::unique_ptr<IOutputSampling> sampling;

                if (method == "none") {
                    sampling = NoOutputSamplingConfig().createOutputSamplingFactory(*matrix)->create();
                } else if (method == "round-robin") {
                    sampling = RoundRobinOutputSamplingConfig().createOutputSamplingFactory(*matrix)->create();
                } else {
                    OutputSamplingWithoutReplacementConfig c(rng);
                    c.setSampleSize(size).setMinSamples(min).setMaxSamples(max);
                    sampling = c.createOutputSamplingFactory(*matrix)->create();
                }

                std::string result;
                for (uint32 r = 0; r < rounds; r++) result += (r ? "/" : "") + toString(sampling->sample());
                return result;
            }, depth, limit);
        } else if (kind == "partition") {
            uint32 n, l, sparse;
            float32 size;
            std::string bits;
            in >> n >> l >> bits >> sparse >> size;
            Labels labels(n, l, bits);
            explore([&]() {
                CContiguousView<const uint8> dense(labels.dense.data(), n, l);
                BinaryCsrView csr(labels.indices.data(), labels.indptr.data(), n, l);
                std::unique_ptr<IClassificationPartitionSamplingFactory> factory;

                if (method == "random") {
                    RandomBiPartitionSamplingConfig c(rng);
                    c.setHoldoutSetSize(size);
                    factory = c.createClassificationPartitionSamplingFactory();
                } else if (method == "example") {
                    ExampleWiseStratifiedBiPartitionSamplingConfig c(rng);
                    c.setHoldoutSetSize(size);
                    factory = c.createClassificationPartitionSamplingFactory();
                } else if (method == "output") {
                    OutputWiseStratifiedBiPartitionSamplingConfig c(rng);
                    c.setHoldoutSetSize(size);
                    factory = c.createClassificationPartitionSamplingFactory();
                } else {
                    factory = NoPartitionSamplingConfig().createClassificationPartitionSamplingFactory();
                }

                std::unique_ptr<IPartitionSampling> sampling = sparse ? factory->create(csr) : factory->create(dense);
                std::string result;
                for (uint32 r = 0; r < rounds; r++) result += (r ? "/" : "") + toString(sampling->partition());
                return result;
            }, depth, limit);
        }
    }

    return 0;
}
