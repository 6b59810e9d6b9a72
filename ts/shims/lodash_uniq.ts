import { uniq } from './lodash'; export default uniq;
