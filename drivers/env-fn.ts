// the environment of a function, set before the code under test is loaded
process.env.AWS_LAMBDA_FUNCTION_NAME = "fn";
process.env.AWS_EXECUTION_ENV = "env-rt";
process.env.AWS_REGION = "eu-west-1";
